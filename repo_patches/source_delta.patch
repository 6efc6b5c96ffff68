From b598bf5945e1d55d9f081891aa8dcd2bdf3e0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 01/25] fix: decode ArrowError::AvroError received from a
 worker

ArrowErrorInnerProto::AvroError is encoded under tag 21, but the oneof did
not list that tag, so decoding dropped the error and failed on the missing
inner message.
---
 src/protocol/grpc/errors/arrow_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..01e4904 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -8,7 +8,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
-- 
2.43.0


From d1b5a4492cabf4611cc3ac1dafe003b9621d57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 02/25] fix: carry the operation and implementer of
 object_store NotImplemented errors

They were replaced by placeholders, so a remote NotImplemented error lost its
message.
---
 src/protocol/grpc/errors/objectstore_error.rs | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 933cf16..aca2f1b 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -26,7 +26,7 @@ pub enum ObjectStoreErrorInnerProto {
     #[prost(message, tag = "8")]
     NotModified(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "9")]
-    NotImplemented(bool),
+    NotImplemented(ObjectStoreNotImplementedErrorProto),
     #[prost(message, tag = "10")]
     PermissionDenied(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "11")]
@@ -35,6 +35,14 @@ pub enum ObjectStoreErrorInnerProto {
     UnknownConfigurationKey(ObjectStoreConfigurationKeyErrorProto),
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ObjectStoreNotImplementedErrorProto {
+    #[prost(string, tag = "2")]
+    operation: String,
+    #[prost(string, tag = "3")]
+    implementer: String,
+}
+
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ObjectStoreGenericErrorProto {
     #[prost(string, tag = "1")]
@@ -130,10 +138,15 @@ impl ObjectStoreErrorProto {
                 )),
             },
             object_store::Error::NotImplemented {
-                operation: _,
-                implementer: _,
+                operation,
+                implementer,
             } => ObjectStoreErrorProto {
-                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(true)),
+                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(
+                    ObjectStoreNotImplementedErrorProto {
+                        operation: operation.to_string(),
+                        implementer: implementer.to_string(),
+                    },
+                )),
             },
             object_store::Error::PermissionDenied { path, source } => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::PermissionDenied(
@@ -213,10 +226,10 @@ impl ObjectStoreErrorProto {
                 path: msg.path.clone(),
                 source: msg.source.clone().into(),
             },
-            ObjectStoreErrorInnerProto::NotImplemented(_msg) => {
+            ObjectStoreErrorInnerProto::NotImplemented(msg) => {
                 object_store::Error::NotImplemented {
-                    operation: "unknown_operation".to_string(),
-                    implementer: "unknown_implementer".to_string(),
+                    operation: msg.operation.clone(),
+                    implementer: msg.implementer.clone(),
                 }
             }
             ObjectStoreErrorInnerProto::PermissionDenied(msg) => {
-- 
2.43.0


From 747a7a3bab24c1001b6941159611a95cee3d88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 03/25] fix: restore config extensions only from their own
 headers, stripping the prefix once

---
 src/config_extension_ext.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..1db69d3 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -60,11 +60,9 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .map(|entry| entry.key)
         .collect::<HashSet<_>>();
 
+    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX);
     for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
-        let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
+        if let Some(key) = k.as_str().strip_prefix(&prefix) {
             if !known_keys.contains(key) {
                 continue;
             }
-- 
2.43.0


From 4297b08b7f47ff3b32c6ff841edaa0fa230b00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 04/25] fix: restore config extensions whose prefix or keys are
 not lowercase

---
 src/config_extension_ext.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 1db69d3..efab3fb 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -60,12 +60,13 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .map(|entry| entry.key)
         .collect::<HashSet<_>>();
 
-    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX);
+    // Header names are always lowercase, but extension prefixes and keys might not be.
+    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX).to_ascii_lowercase();
     for (k, v) in headers.iter() {
         if let Some(key) = k.as_str().strip_prefix(&prefix) {
-            if !known_keys.contains(key) {
+            let Some(key) = known_keys.iter().find(|x| x.eq_ignore_ascii_case(key)) else {
                 continue;
-            }
+            };
 
             result.as_mut().set(
                 key,
-- 
2.43.0


From 2e1dfa94748373eb3c536c3c7077df97e21f153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 05/25] fix: apply the limit of a broadcast build side once,
 below the broadcast

The limit of a coalesced build side was kept above the broadcast, so every
consumer task joined against its own selection of rows.
---
 src/distributed_planner/insert_broadcast.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index 7fb72cf..9e3b80d 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -133,17 +133,17 @@ pub(super) fn insert_broadcast_execs(
             return Ok(Transformed::no(node));
         };
 
-        let (broadcast_input, coalesce_fetch) = build_child
-            .downcast_ref::<CoalescePartitionsExec>()
-            .map_or_else(
-                || (Arc::clone(build_child), None),
-                |coalesce| (Arc::clone(coalesce.input()), coalesce.fetch()),
-            );
+        // A coalesce with a fetch decides which rows belong to the build side, so it must run once,
+        // below the broadcast: above it, each consumer task would keep different rows.
+        let broadcast_input = match build_child.downcast_ref::<CoalescePartitionsExec>() {
+            Some(coalesce) if coalesce.fetch().is_none() => Arc::clone(coalesce.input()),
+            _ => Arc::clone(build_child),
+        };
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
         let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
         let new_build_child: Arc<dyn ExecutionPlan> =
-            Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+            Arc::new(CoalescePartitionsExec::new(broadcast));
 
         let mut new_children: Vec<Arc<dyn ExecutionPlan>> = children.into_iter().cloned().collect();
         new_children[0] = new_build_child;
-- 
2.43.0


From a021527f54b142df959b83babef428a08ee40fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 06/25] fix: run operators that need a whole partition in a
 single task

Limits, sorts, aggregations and windows over an input with a single partition
have no CoalescePartitionsExec below them. Scaling that input to several tasks
ran the operator once per task over a part of the rows.
---
 .../inject_network_boundaries.rs              | 38 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..014386e 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -23,7 +23,8 @@ use datafusion::physical_plan::joins::{
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, Distribution, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -223,6 +224,35 @@ fn plan_ptr_key(plan: &Arc<dyn ExecutionPlan>) -> usize {
     Arc::as_ptr(plan) as *const () as usize
 }
 
+/// Whether running `plan` in several tasks would split the single partition its result depends on:
+/// either because it keeps a limited number of rows of that partition, or because the partition is
+/// what satisfies the distribution it requires from an input.
+///
+/// Inputs whose rows will be put in place by a network boundary are not affected: hash repartitions
+/// are shuffled across all the tasks, and broadcasts are replicated to all of them.
+fn must_run_in_one_task(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    if plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1 {
+        return true;
+    }
+    let required = plan.input_distribution_requirements().into_per_child();
+    plan.children()
+        .into_iter()
+        .zip(required)
+        .any(|(child, required)| {
+            if matches!(required, Distribution::UnspecifiedDistribution)
+                || child.output_partitioning().partition_count() != 1
+            {
+                return false;
+            }
+            if let Some(r_exec) = child.downcast_ref::<RepartitionExec>() {
+                return !matches!(r_exec.partitioning(), Partitioning::Hash(_, _));
+            }
+            !child
+                .downcast_ref::<CoalescePartitionsExec>()
+                .is_some_and(|coalesce| coalesce.input().is::<BroadcastExec>())
+        })
+}
+
 /// WARNING: every return statement in this function must funnel through
 /// [InjectNetworkBoundaryContext::plan_with_task_count]
 /// (or [InjectNetworkBoundaryContext::set_task_count] on the way through) so the returned node has
@@ -254,7 +284,11 @@ async fn _inject_network_boundaries(
         .transpose()?
         .map(|v| v.task_count);
 
-    let task_count = if plan.children().is_empty() {
+    let task_count = if must_run_in_one_task(&plan) {
+        // Global limits, sorts, aggregations, etc... over a single partition are planned without a
+        // [CoalescePartitionsExec] below them, so nothing would gather the rows of several tasks.
+        Maximum(1)
+    } else if plan.children().is_empty() {
         // This is a leaf node, maybe a DataSourceExec, or maybe something else custom from the user.
         // If we could not determine how many tasks this leaf node should run on, we need to assume
         // it cannot be distributed and use just 1 task.
-- 
2.43.0


From 7e207948aac26ff76acc43c9eb6f551ffde78ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 07/25] fix: keep the file groups of a pre-partitioned scan
 whole

Groups with several files were torn apart and handed to different tasks, so
joins and aggregations relying on the declared partitioning lost or repeated
rows.
---
 src/events/defaults/file_scan_config.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..de2ad1b 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -41,15 +41,15 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let partition_count = ev.plan.output_partitioning().partition_count();
 
     let rebalanced = if file_scan.output_partitioning.is_some() {
-        let all_partitioned_files = file_scan
-            .file_groups
-            .iter()
-            .flat_map(|file_group| file_group.iter().cloned())
-            .collect::<Vec<_>>();
-        rebalance_round_robin(all_partitioned_files, partition_count * ev.task_count)
-            .into_iter()
-            .map(FileGroup::new)
-            .collect::<Vec<_>>()
+        // The plan relies on how rows are spread over these groups, so each one must be kept whole,
+        // and the groups with the same index in two scans must be read by the same task.
+        rebalance_round_robin(
+            file_scan.file_groups.clone(),
+            partition_count * ev.task_count,
+        )
+        .into_iter()
+        .map(|groups| FileGroup::new(groups.into_iter().flat_map(FileGroup::into_inner).collect()))
+        .collect::<Vec<_>>()
     } else {
         FileGroupPartitioner::new()
             .with_target_partitions(partition_count * ev.task_count)
-- 
2.43.0


From 08ed837a70d16726220f97bd28838af125a2ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 08/25] fix: only split scanned files where their source
 supports it

Compressed files, CSV files with newlines in values and other formats that
cannot be read from the middle were cut into byte ranges.
---
 src/events/defaults/file_scan_config.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index de2ad1b..4d38363 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -5,7 +5,7 @@ use crate::events::{
 };
 use crate::execution_plans::DistributedLeafExec;
 use datafusion::catalog::memory::DataSourceExec;
-use datafusion::datasource::physical_plan::{FileGroup, FileGroupPartitioner, FileScanConfig};
+use datafusion::datasource::physical_plan::{FileGroup, FileScanConfig};
 use datafusion::error::Result;
 use datafusion::physical_plan::ExecutionPlanProperties;
 use std::sync::Arc;
@@ -51,14 +51,18 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
         .map(|groups| FileGroup::new(groups.into_iter().flat_map(FileGroup::into_inner).collect()))
         .collect::<Vec<_>>()
     } else {
-        FileGroupPartitioner::new()
-            .with_target_partitions(partition_count * ev.task_count)
-            .with_repartition_file_min_size(0)
-            .with_preserve_order_within_groups(!file_scan.output_ordering.is_empty())
-            .repartition_file_groups(&file_scan.file_groups)
-            .unwrap_or_else(|| file_scan.file_groups.clone())
-            .into_iter()
-            .collect()
+        // Not every file can be split into ranges, so the decision belongs to the file source.
+        let repartitioned = file_scan.file_source.repartitioned(
+            partition_count * ev.task_count,
+            0,
+            file_scan.output_ordering.first().cloned(),
+            file_scan,
+        );
+        match repartitioned {
+            Ok(Some(repartitioned)) => repartitioned.file_groups,
+            Ok(None) => file_scan.file_groups.clone(),
+            Err(e) => return Some(Err(e)),
+        }
     };
 
     let mut file_scan_template = file_scan.clone();
-- 
2.43.0


From 2bc809a1211afbd9e2af0785c5604d3c3b939c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 09/25] fix: give all the tasks of a scan the same number of
 partitions

Planning failed whenever the file groups of a scan could not be spread evenly
over its tasks.
---
 src/events/defaults/file_scan_config.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 4d38363..9cbf6e5 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -72,6 +72,14 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
         file_scans[i % ev.task_count].file_groups.push(file_group);
     }
 
+    // All the variants must have the same number of partitions, even if some have nothing to read.
+    let groups_per_task = file_scans.iter().map(|scan| scan.file_groups.len()).max();
+    for file_scan in &mut file_scans {
+        file_scan
+            .file_groups
+            .resize(groups_per_task.unwrap_or(0), FileGroup::new(vec![]));
+    }
+
     let distributed_leaf_result = DistributedLeafExec::try_new(
         Arc::clone(ev.plan),
         file_scans
-- 
2.43.0


From f0eda6e6f7f364cc8105f3226356489fdbc3fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 10/25] fix: merge partial aggregates of grouping sets by their
 grouping id

The additional reduction evaluated the grouping sets a second time, over the
already grouped rows, and panicked.
---
 .../partial_reduce_below_network_shuffles.rs  | 40 ++-----------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..bc0a1e6 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,9 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // The input is the output of the Partial aggregation: its groups, including the grouping id
+        // of grouping sets, are columns by now.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From 3b646be9a911e8e3c6c22e4a4a086df5b84ebae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 11/25] fix: plan at least one task for every stage

A task count of zero, which handlers are free to answer, made planning panic
or produced stages that nobody runs.
---
 src/events/desired_task_count.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events/desired_task_count.rs b/src/events/desired_task_count.rs
index 4a33fe1..e629b9e 100644
--- a/src/events/desired_task_count.rs
+++ b/src/events/desired_task_count.rs
@@ -115,8 +115,9 @@ impl TaskCountAnnotation {
 
     pub(crate) fn limit(self, limit: usize) -> Self {
         match self {
-            Desired(desired) => Desired(desired.min(limit)),
-            Maximum(maximum) => Maximum(maximum.min(limit)),
+            // A stage always needs at least one task.
+            Desired(desired) => Desired(desired.min(limit).max(1)),
+            Maximum(maximum) => Maximum(maximum.min(limit).max(1)),
         }
     }
 
-- 
2.43.0


From 479dee02df2c6e57bdbd7ea0f6522c8a9a1460de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 12/25] fix: push only those limits below a coalescing exchange
 that its consumer applies to its input

---
 src/distributed_planner/push_fetch_into_network_coalesce.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..d15c61f 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -101,7 +101,9 @@ fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
             .and_then(|fetch| fetch.checked_add(global_limit.skip()));
     }
 
-    plan.fetch()
+    // The fetch of a node that filters, sorts or joins its input limits the rows it emits, and says
+    // nothing about how many rows it needs from its input.
+    plan.fetch().filter(|_| plan.supports_limit_pushdown())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1bc7ebac0a0f1a9aabc47a97fb6fd3f9a4024576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 13/25] fix: give every execution of a distributed plan its own
 query id

---
 src/coordinator/distributed.rs         | 13 +++++++++++--
 src/coordinator/prepare_static_plan.rs | 27 +++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/distributed.rs b/src/coordinator/distributed.rs
index 1e5fc79..8c07c46 100644
--- a/src/coordinator/distributed.rs
+++ b/src/coordinator/distributed.rs
@@ -1,7 +1,7 @@
 use crate::common::require_one_child;
 use crate::coordinator::metrics_store::MetricsStore;
 use crate::coordinator::prepare_dynamic_plan::prepare_dynamic_plan;
-use crate::coordinator::prepare_static_plan::prepare_static_plan;
+use crate::coordinator::prepare_static_plan::{prepare_static_plan, with_fresh_query_id};
 use crate::coordinator::query_coordinator::QueryCoordinator;
 use crate::distributed_planner::NetworkBoundaryExt;
 use crate::{DistributedConfig, TaskKey};
@@ -16,6 +16,7 @@ use datafusion::physical_plan::stream::RecordBatchReceiverStreamBuilder;
 use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
 use futures::StreamExt;
 use std::fmt::Formatter;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 
 /// [ExecutionPlan] that executes the inner plan in distributed mode.
@@ -40,6 +41,9 @@ pub struct DistributedExec {
     plan_for_viz: Arc<Mutex<Option<Arc<dyn ExecutionPlan>>>>,
     /// The head stage meant to be executed locally on [DistributedExec::execute].
     head_stage: Arc<Mutex<Option<Arc<dyn ExecutionPlan>>>>,
+    /// Whether the base plan was already executed. The query id it was planned with identifies the
+    /// first execution, any other one needs its own.
+    executed: Arc<AtomicBool>,
     /// DataFusion metrics.
     metrics: ExecutionPlanMetricsSet,
     /// Storage where metrics collected from workers at runtime will place their results as they
@@ -60,6 +64,7 @@ impl DistributedExec {
             base_plan,
             plan_for_viz: Arc::new(Mutex::new(None)),
             head_stage: Arc::new(Mutex::new(None)),
+            executed: Arc::new(AtomicBool::new(false)),
             metrics: ExecutionPlanMetricsSet::new(),
             metrics_store: None,
         }
@@ -171,6 +176,7 @@ impl ExecutionPlan for DistributedExec {
             base_plan: require_one_child(&children)?,
             plan_for_viz: Arc::new(Mutex::new(None)),
             head_stage: Arc::new(Mutex::new(None)),
+            executed: Arc::clone(&self.executed),
             metrics: self.metrics.clone(),
             metrics_store: self.metrics_store.clone(),
         }))
@@ -191,7 +197,10 @@ impl ExecutionPlan for DistributedExec {
             );
         }
 
-        let base_plan = Arc::clone(&self.base_plan);
+        let base_plan = match self.executed.swap(true, Ordering::Relaxed) {
+            true => with_fresh_query_id(&self.base_plan)?,
+            false => Arc::clone(&self.base_plan),
+        };
         let plan_for_viz = Arc::clone(&self.plan_for_viz);
         let head_stage = Arc::clone(&self.head_stage);
 
diff --git a/src/coordinator/prepare_static_plan.rs b/src/coordinator/prepare_static_plan.rs
index 0c51e3a..dcb73e3 100644
--- a/src/coordinator/prepare_static_plan.rs
+++ b/src/coordinator/prepare_static_plan.rs
@@ -1,11 +1,12 @@
 use crate::coordinator::distributed::PreparedPlan;
 use crate::coordinator::query_coordinator::QueryCoordinator;
-use crate::stage::RemoteStage;
+use crate::stage::{LocalStage, RemoteStage};
 use crate::{NetworkBoundaryExt, Stage};
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::common::{Result, exec_err};
 use datafusion::physical_plan::ExecutionPlan;
 use std::sync::Arc;
+use uuid::Uuid;
 
 /// Prepares the distributed plan for execution, which implies:
 /// 1. Perform some worker URL assignation, choosing either:
@@ -61,3 +62,27 @@ pub(super) fn prepare_static_plan(
         plan_for_viz: Arc::clone(base_plan),
     })
 }
+
+/// Workers identify tasks by their query id, so two executions of the same plan, which might even
+/// overlap, must not share it.
+pub(super) fn with_fresh_query_id(plan: &Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+    let query_id = Uuid::new_v4();
+    let transformed = Arc::clone(plan).transform_up(|plan| {
+        let Some(nb) = plan.as_network_boundary() else {
+            return Ok(Transformed::no(plan));
+        };
+        let Stage::Local(stage) = nb.input_stage() else {
+            return Ok(Transformed::no(plan));
+        };
+        Ok(Transformed::yes(nb.with_input_stage(Stage::Local(
+            LocalStage {
+                query_id,
+                num: stage.num,
+                plan: Arc::clone(&stage.plan),
+                tasks: stage.tasks,
+                metrics_set: stage.metrics_set.clone(),
+            },
+        ))?))
+    })?;
+    Ok(transformed.data)
+}
-- 
2.43.0


From 1839d2c9b5ab7f26fc8cbef0dc5dd9893c16fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 14/25] fix: fail work unit feeds whose coordinator channel
 broke instead of ending them

---
 src/worker/impl_coordinator_channel.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..9cfca09 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -123,7 +123,24 @@ impl Worker {
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
             let mut stream = stream.map_ok(set_work_unit_received_time);
-            while let Some(Ok(msg)) = stream.next().await {
+            while let Some(msg) = stream.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg,
+                    Err(err) => {
+                        // The channel broke, so work units might be missing. The feeds that were
+                        // not ended yet must not look like they were completely received.
+                        let err = Arc::new(err);
+                        for tx in work_unit_senders
+                            .take()
+                            .into_iter()
+                            .flatten()
+                            .map(|(_, tx)| tx)
+                        {
+                            let _ = tx.send(Err(DataFusionError::Shared(Arc::clone(&err))));
+                        }
+                        break;
+                    }
+                };
                 match msg {
                     CoordinatorToWorkerMsg::WorkUnitBatch(work_unit_batch) => {
                         let Some(work_unit_senders) = work_unit_senders.as_mut() else {
-- 
2.43.0


From b63cbea8fd2b4a2410caec66e5a1c09825cb7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 15/25] fix: report a panic while streaming a partition as an
 error instead of ending the partition

---
 src/common/mod.rs                   |  2 ++
 src/common/panic.rs                 | 12 ++++++++++++
 src/execution_plans/broadcast.rs    | 11 +++++++++--
 src/protocol/grpc/worker_service.rs | 12 +++++++++++-
 4 files changed, 34 insertions(+), 3 deletions(-)
 create mode 100644 src/common/panic.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 7dfd3a9..f3ef2ce 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,6 +1,7 @@
 mod children_helpers;
 mod maybe_encoded;
 mod once_lock;
+mod panic;
 mod recursion;
 mod task_context_helpers;
 mod time;
@@ -10,6 +11,7 @@ mod vec;
 pub(crate) use children_helpers::require_one_child;
 pub use maybe_encoded::MaybeEncoded;
 pub(crate) use once_lock::OnceLockResult;
+pub(crate) use panic::panic_message;
 pub(crate) use recursion::TreeNodeExt;
 pub(crate) use task_context_helpers::task_ctx_with_extension;
 pub(crate) use time::now_ns;
diff --git a/src/common/panic.rs b/src/common/panic.rs
new file mode 100644
index 0000000..3ef5b8e
--- /dev/null
+++ b/src/common/panic.rs
@@ -0,0 +1,12 @@
+use std::any::Any;
+
+/// Best effort description of the payload of a panic that was caught while polling a stream.
+pub(crate) fn panic_message(payload: &(dyn Any + Send)) -> String {
+    if let Some(msg) = payload.downcast_ref::<&str>() {
+        format!("Panicked while executing: {msg}")
+    } else if let Some(msg) = payload.downcast_ref::<String>() {
+        format!("Panicked while executing: {msg}")
+    } else {
+        "Panicked while executing".to_string()
+    }
+}
diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 4d06d4d..b0d1a4c 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,6 +1,7 @@
-use crate::common::{OnceLockResult, require_one_child};
+use crate::common::{OnceLockResult, panic_message, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
+use datafusion::common::exec_err;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::error::{DataFusionError, Result};
@@ -13,6 +14,7 @@ use datafusion::physical_plan::{
 };
 use futures::{Stream, StreamExt};
 use std::fmt::Formatter;
+use std::panic::AssertUnwindSafe;
 use std::pin::Pin;
 use std::sync::{Arc, Mutex, OnceLock};
 use std::task::{Context, Poll};
@@ -178,11 +180,16 @@ impl ExecutionPlan for BroadcastExec {
             }
 
             let pool = Arc::clone(context.memory_pool());
-            let mut stream = input.execute(real_partition, context).map_err(Arc::new)?;
+            let stream = input.execute(real_partition, context).map_err(Arc::new)?;
             let task = SpawnedTask::spawn(async move {
                 let mem_consumer = MemoryConsumer::new(format!("BroadcastExec[{real_partition}]"));
 
+                // If polling the input panics, this task would just vanish and the consumers would
+                // take the partition as finished, so report it as an error.
+                let mut stream = AssertUnwindSafe(stream).catch_unwind();
                 while let Some(msg) = stream.next().await {
+                    let msg = msg
+                        .unwrap_or_else(|payload| exec_err!("{}", panic_message(payload.as_ref())));
                     match msg {
                         Ok(record_batch) => {
                             let reservation = mem_consumer.clone_with_new_id().register(&pool);
diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 1f0fdf0..07b1c63 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -3,7 +3,7 @@ use super::generated::worker as pb;
 use super::metrics_proto::df_metrics_set_to_proto;
 use super::spawn_select_all::spawn_select_all;
 
-use crate::common::{deserialize_uuid, now_ns};
+use crate::common::{deserialize_uuid, now_ns, panic_message};
 use crate::protocol::grpc::{ObservabilityServiceImpl, ObservabilityServiceServer};
 use crate::{
     CoordinatorToWorkerMsg, DistributedConfig, ExecuteTaskRequest, LoadInfo, MaybeEncoded,
@@ -24,6 +24,7 @@ use datafusion::execution::SendableRecordBatchStream;
 use futures::stream::BoxStream;
 use futures::{StreamExt, TryStreamExt};
 use prost::Message;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use tonic::{Request, Response, Status, Streaming};
 use url::Url;
@@ -169,6 +170,15 @@ impl pb::worker_service_server::WorkerService for Worker {
                     msg.map(|v| v.with_app_metadata(flight_data.encode_to_vec()))
                 });
 
+            // The streams are polled in their own tasks. If one panics, the task would just vanish
+            // and the consumer would take the partition as finished, so report it as an error.
+            let flight_stream = AssertUnwindSafe(flight_stream).catch_unwind().map(|msg| {
+                msg.unwrap_or_else(|payload| {
+                    let status = Status::internal(panic_message(payload.as_ref()));
+                    Err(FlightError::Tonic(Box::new(status)))
+                })
+            });
+
             flight_streams.push(flight_stream);
         }
 
-- 
2.43.0


From b5512e7678d6fd4064420f0df7d13981eddf763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 16/25] fix: admit a message when nothing is buffered even if
 the connection budget is zero

---
 src/protocol/grpc/worker_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..aa4dd08 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -191,7 +191,9 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // the way back to the worker without coupling sibling partitions.
                 // We always allow a message through when reservation == 0 to avoid
                 // livelock if a single message is larger than the budget.
-                while memory_reservation.size() >= buffer_budget_bytes {
+                while memory_reservation.size() > 0
+                    && memory_reservation.size() >= buffer_budget_bytes
+                {
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
-- 
2.43.0


From 4c9457092fc4eb997f35759036b6478d1efc4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 17/25] fix: give back the connection budget of messages whose
 partition nobody consumes

---
 src/protocol/grpc/worker_client.rs | 43 ++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index aa4dd08..98802cf 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -22,7 +22,7 @@ use datafusion::common::instant::Instant;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
-use datafusion::execution::memory_pool::MemoryConsumer;
+use datafusion::execution::memory_pool::{MemoryConsumer, MemoryReservation};
 use datafusion::physical_expr_common::metrics::{Count, Label, MetricBuilder, MetricValue, Time};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::stream::BoxStream;
@@ -100,7 +100,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         // for them in the memory pool.
         let memory_reservation =
             Arc::new(MemoryConsumer::new("WorkerConnection").register(ctx.memory_pool()));
-        let memory_reservation_clone = Arc::clone(&memory_reservation);
 
         // Track the maximum memory used to buffer recieved messages.
         let mut curr_max_mem = 0;
@@ -139,7 +138,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         }
 
         let mem_available_notify = Arc::new(Notify::new());
-        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
 
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
@@ -197,7 +195,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
-                        _ = mem_available_notify_for_task.notified() => {}
+                        _ = mem_available_notify.notified() => {}
                     }
                 }
 
@@ -265,12 +263,16 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
-                if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
+                let buffered = BufferedBytes {
+                    size,
+                    reservation: Arc::clone(&memory_reservation),
+                    mem_available_notify: Arc::clone(&mem_available_notify),
+                };
+                if o_tx.send(Ok((flight_data, flight_metadata, buffered))).is_err() {
                     // The receiver for this partition was dropped (e.g. a hash join partition
                     // completed early without consuming its probe side). Don't exit: other
                     // partitions multiplexed over the same gRPC stream still need their data.
-                    // Undo the memory reservation that was grown for this dropped batch.
-                    memory_reservation.shrink(size);
+                    // Dropping the message undoes its memory reservation.
                     continue;
                 };
             }
@@ -292,12 +294,9 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             .flatten_stream();
 
             let stream = stream.map_err(|err| FlightError::Tonic(Box::new(err)));
-            let reservation = Arc::clone(&memory_reservation_clone);
-            let mem_available_notify = Arc::clone(&mem_available_notify);
-            let stream = stream.map_ok(move |(data, _meta)| {
-                reservation.shrink(data.encoded_len());
-                // Wake the demux task in case it is blocked on the byte budget.
-                mem_available_notify.notify_one();
+            let stream = stream.map_ok(move |(data, _meta, buffered)| {
+                // The message leaves the queue, so it no longer counts as buffered.
+                drop(buffered);
                 let _ = &task; // <- keep the task that polls data from the network alive.
                 data
             });
@@ -336,7 +335,23 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
     }
 }
 
-type WorkerMsg = Result<(FlightData, FlightAppMetadata), Status>;
+type WorkerMsg = Result<(FlightData, FlightAppMetadata, BufferedBytes), Status>;
+
+/// The bytes that a queued message takes from the budget of its connection. They are given back
+/// when the message leaves its queue, or is discarded because nobody will consume its partition.
+struct BufferedBytes {
+    size: usize,
+    reservation: Arc<MemoryReservation>,
+    mem_available_notify: Arc<Notify>,
+}
+
+impl Drop for BufferedBytes {
+    fn drop(&mut self) {
+        self.reservation.shrink(self.size);
+        // Wake the demux task in case it is blocked on the byte budget.
+        self.mem_available_notify.notify_one();
+    }
+}
 
 struct NetworkLatencyMetrics {
     metrics: ExecutionPlanMetricsSet,
-- 
2.43.0


From cf7238610f5f7718d9df5164fa3cc60dbef62c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 18/25] fix: release the stream of a partition whose consumer
 goes away without polling it

---
 src/worker/worker_connection_pool.rs | 88 ++++++++++++++++++++++++----
 1 file changed, 75 insertions(+), 13 deletions(-)

diff --git a/src/worker/worker_connection_pool.rs b/src/worker/worker_connection_pool.rs
index 6f54065..d0ec650 100644
--- a/src/worker/worker_connection_pool.rs
+++ b/src/worker/worker_connection_pool.rs
@@ -23,13 +23,55 @@ use std::sync::{Arc, Mutex, OnceLock};
 ///   happens to be the same one issuing the request.
 /// - Lazy inits connections to a remote worker on first call to [WorkerConnectionPool::execute].
 pub(crate) struct WorkerConnectionPool {
-    lazy_stream_groups: Vec<OnceLock<SharedBoxFuture<StreamGroup>>>,
+    lazy_stream_groups: Vec<OnceLock<StreamGroup>>,
     pub(crate) metrics: ExecutionPlanMetricsSet,
 }
 
-/// A list of consumable RecordBatch streams, each one wrapped by `Mutex<Option<_>>` for
-/// exactly-once consumption semantics.
-type StreamGroup = Arc<Vec<Mutex<Option<BoxStream<'static, Result<RecordBatch>>>>>>;
+/// A list of consumable RecordBatch streams, with exactly-once consumption semantics.
+#[derive(Clone)]
+struct StreamGroup {
+    /// One slot per partition, available from the beginning.
+    slots: Arc<Vec<Mutex<StreamSlot>>>,
+    /// Resolves once the streams were instantiated and placed in their slots.
+    ready: SharedBoxFuture<()>,
+}
+
+/// Releases the stream of a slot, unless its consumer already took it.
+struct ReleaseOnDrop(Arc<Vec<Mutex<StreamSlot>>>, usize);
+
+impl Drop for ReleaseOnDrop {
+    fn drop(&mut self) {
+        if let Some(slot) = self.0.get(self.1) {
+            let stream = slot.lock().unwrap().take();
+            drop(stream);
+        }
+    }
+}
+
+enum StreamSlot {
+    /// The stream was not instantiated yet.
+    Pending,
+    /// The stream is waiting for its consumer.
+    Ready(BoxStream<'static, Result<RecordBatch>>),
+    /// The stream was handed to its consumer, or nobody is going to consume it.
+    Taken,
+}
+
+impl StreamSlot {
+    fn put(&mut self, stream: BoxStream<'static, Result<RecordBatch>>) {
+        if matches!(self, StreamSlot::Pending) {
+            *self = StreamSlot::Ready(stream);
+        }
+    }
+
+    fn take(&mut self) -> Option<BoxStream<'static, Result<RecordBatch>>> {
+        match std::mem::replace(self, StreamSlot::Taken) {
+            StreamSlot::Ready(stream) => Some(stream),
+            StreamSlot::Pending | StreamSlot::Taken => None,
+        }
+    }
+}
+
 /// Just some boilerplate for a shared future.
 type SharedBoxFuture<T> = Shared<BoxFuture<'static, Result<T, Arc<DataFusionError>>>>;
 
@@ -75,7 +117,15 @@ impl WorkerConnectionPool {
             );
         };
 
-        let streams_shared_future = worker_connection.get_or_init(|| {
+        let group = worker_connection.get_or_init(|| {
+            let slots: Arc<Vec<_>> = Arc::new(
+                target_partitions
+                    .clone()
+                    .map(|_| Mutex::new(StreamSlot::Pending))
+                    .collect(),
+            );
+            let slots_to_fill = Arc::clone(&slots);
+            let target_partitions = target_partitions.clone();
             let metrics = self.metrics.clone();
             let ctx = Arc::clone(ctx);
 
@@ -107,11 +157,14 @@ impl WorkerConnectionPool {
                 Ok(streams)
             });
 
-            async move {
+            let ready = async move {
                 match streams_task.await {
-                    Ok(Ok(v)) => Ok(Arc::new(
-                        v.into_iter().map(|v| Mutex::new(Some(v))).collect(),
-                    )),
+                    Ok(Ok(v)) => {
+                        for (slot, stream) in slots_to_fill.iter().zip(v) {
+                            slot.lock().unwrap().put(stream);
+                        }
+                        Ok(())
+                    }
                     Ok(Err(e)) => Err(Arc::new(e)),
                     Err(e) => Err(Arc::new(internal_datafusion_err!(
                         "JoinError instantiating streams {e}"
@@ -119,13 +172,22 @@ impl WorkerConnectionPool {
                 }
             }
             .boxed()
-            .shared()
+            .shared();
+            StreamGroup { slots, ready }
         });
 
-        let streams_future = streams_shared_future.clone();
+        let StreamGroup { slots, ready } = group.clone();
+        let slot_i = target_partition.checked_sub(target_partitions.start);
+
+        // A consumer that goes away without having polled its stream (e.g. the probe side of a hash
+        // join whose build side is empty) must release it, otherwise its messages pile up and take
+        // the buffer budget away from the sibling partitions.
+        let release = slot_i.map(|i| ReleaseOnDrop(Arc::clone(&slots), i));
+
         Ok(async move {
-            let streams = streams_future.await.map_err(DataFusionError::Shared)?;
-            let Some(slot) = streams.get(target_partition - target_partitions.start) else {
+            let _release = release;
+            ready.await.map_err(DataFusionError::Shared)?;
+            let Some(slot) = slot_i.and_then(|i| slots.get(i)) else {
                 return internal_err!(
                     "WorkerConnections has no stream for partition {target_partition}. Was it already consumed?"
                 );
-- 
2.43.0


From 0316b0da51e4c500ab5e856c25adce644f06a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 19/25] fix: do not wait forever for the metrics of tasks that
 were never executed

---
 src/coordinator/query_coordinator.rs | 18 ++++++++++++++++--
 src/metrics/task_metrics_rewriter.rs |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..d181626 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -12,7 +12,8 @@ use crate::work_unit_feed::{build_work_unit_batch_msg, set_work_unit_send_time};
 use crate::{
     CoordinatorToWorkerMsg, DISTRIBUTED_DATAFUSION_TASK_ID_LABEL, DistributedTaskContext,
     DistributedWorkUnitFeedContext, LoadInfo, LocalWorkerContext, MaybeEncoded, SetPlanRequest,
-    TaskKey, WorkUnitFeedDeclaration, WorkerToCoordinatorMsg, get_distributed_channel_resolver,
+    TaskKey, TaskMetrics, WorkUnitFeedDeclaration, WorkerToCoordinatorMsg,
+    get_distributed_channel_resolver,
 };
 use datafusion::common::DataFusionError;
 use datafusion::common::instant::Instant;
@@ -22,7 +23,7 @@ use datafusion::common::{Result, exec_err};
 use datafusion::execution::TaskContext;
 use datafusion::physical_expr_common::metrics::{ExecutionPlanMetricsSet, Label, MetricBuilder};
 use datafusion::physical_plan::ExecutionPlan;
-use datafusion::physical_plan::metrics::Count;
+use datafusion::physical_plan::metrics::{Count, MetricsSet};
 use datafusion::prelude::SessionConfig;
 use futures::{Stream, StreamExt, TryStreamExt};
 use std::ops::DerefMut;
@@ -243,9 +244,11 @@ impl<'a> StageCoordinator<'a> {
         // metrics collection process might outlive the query's lifetime.
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
+            let mut metrics_received = false;
             while let Some(msg) = worker_to_coordinator_rx.recv().await {
                 match msg {
                     WorkerToCoordinatorMsg::TaskMetrics(v) => {
+                        metrics_received = true;
                         if let Some(task_metrics) = &task_metrics {
                             task_metrics.insert(task_key, v);
                         }
@@ -260,6 +263,17 @@ impl<'a> StageCoordinator<'a> {
                     }
                 }
             }
+            // A task that was never executed, or whose channel broke, does not report any metrics.
+            // Register it anyway, otherwise whoever waits for the metrics would wait forever.
+            if !metrics_received && let Some(task_metrics) = &task_metrics {
+                task_metrics.insert(
+                    task_key,
+                    TaskMetrics {
+                        pre_order_plan_metrics: vec![],
+                        task_metrics: MetricsSet::new(),
+                    },
+                );
+            }
         });
         load_info_rx
     }
diff --git a/src/metrics/task_metrics_rewriter.rs b/src/metrics/task_metrics_rewriter.rs
index a363320..10ebf11 100644
--- a/src/metrics/task_metrics_rewriter.rs
+++ b/src/metrics/task_metrics_rewriter.rs
@@ -241,6 +241,11 @@ pub fn stage_metrics_rewriter(
             );
         };
 
+        // Tasks that were never executed have no metrics at all.
+        if task_metrics.pre_order_plan_metrics.is_empty() {
+            continue;
+        }
+
         let mut per_task_counter = 0usize;
         stage.plan.apply_with_dt_ctx(d_ctx, |node, _ctx| {
             if per_task_counter >= task_metrics.pre_order_plan_metrics.len() {
-- 
2.43.0


From 33113d11602192e44113cfd4b222d58c16b58392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 20/25] fix: keep a stage's own repartition head when the
 exchange above places none

---
 src/distributed_planner/network_boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..dbf0dae 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,6 +84,11 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+        // Nothing is placed on top of the plan, so a head the plan already has is its own, not one
+        // that must be replaced.
+        if matches!(self, ProducerHead::None) {
+            return Ok(input);
+        }
         let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
-- 
2.43.0


From c842957ace9a81cfebd8571dc663c6d7d1b683f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 21/25] fix: do not trust the partition range of an execute
 task request

---
 src/worker/impl_execute_task.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..529a5ad 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -41,7 +41,11 @@ impl Worker {
 
         // Execute all the requested partitions at once, and collect all the streams so that they
         // can be merged into a single one at the end of this function.
-        let n_streams = request.target_partition_end - request.target_partition_start;
+        // The range comes from the network, so it's not trusted until checked below.
+        let n_streams = request
+            .target_partition_end
+            .saturating_sub(request.target_partition_start)
+            .min(partition_count);
         let mut streams = Vec::with_capacity(n_streams);
         for partition in request.target_partition_start..request.target_partition_end {
             if partition >= partition_count {
-- 
2.43.0


From d9302dd7834f09107727259d13185251ede32aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:00 +0000
Subject: [PATCH 22/25] fix: fall back when sampling saw no leaf rows instead
 of dividing by zero

---
 src/coordinator/prepare_dynamic_plan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..bc70efd 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
-- 
2.43.0


From 2d1a946c730690b3a6171814ca3486b3e73de44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 23/25] fix: a scan budget of zero bytes per partition made
 planning panic

---
 src/events/defaults/file_scan_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 9cbf6e5..f090ca9 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -27,7 +27,7 @@ pub(crate) fn file_scan_config_desired_task_count(
     }
 
     let task_count = total_bytes
-        .div_ceil(d_cfg.file_scan_config_bytes_per_partition)
+        .div_ceil(d_cfg.file_scan_config_bytes_per_partition.max(1))
         .div_ceil(cfg.target_partitions());
 
     Some(Ok(DesiredTaskCountEventResponse::desired(task_count)))
-- 
2.43.0


From a3b3d5847cab5f5d4346c3a67f92e5efd7eeed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:54 +0000
Subject: [PATCH 24/25] fix: a leaf with a single variant executes that
 variant, whose partitions it advertises

---
 src/execution_plans/distributed_leaf.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/execution_plans/distributed_leaf.rs b/src/execution_plans/distributed_leaf.rs
index 9f3d988..51d867d 100644
--- a/src/execution_plans/distributed_leaf.rs
+++ b/src/execution_plans/distributed_leaf.rs
@@ -183,7 +183,9 @@ impl ExecutionPlan for DistributedLeafExec {
         context: Arc<TaskContext>,
     ) -> Result<SendableRecordBatchStream> {
         let d_ctx = DistributedTaskContext::from_ctx(&context);
-        if d_ctx.task_count == 1 {
+        // The only variant of a leaf that was not split can have a different number of partitions
+        // than the original plan, and that number is the one this node advertises.
+        if d_ctx.task_count == 1 && self.variants.len() != 1 {
             return self.original.execute(partition, context);
         }
 
@@ -199,7 +201,10 @@ impl ExecutionPlan for DistributedLeafExec {
     }
 
     fn metrics(&self) -> Option<MetricsSet> {
-        self.original.metrics()
+        match self.variants.as_slice() {
+            [variant] => variant.metrics(),
+            _ => self.original.metrics(),
+        }
     }
 
     fn statistics_from_inputs(
-- 
2.43.0


From 24dcc28ae2b2947b284f904bca49bbe5adaf589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 25/25] fix: aggregating percentile metrics must not hold the
 locks of both sketches

---
 src/metrics/latency_metric.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/latency_metric.rs b/src/metrics/latency_metric.rs
index 4d415f7..6d352da 100644
--- a/src/metrics/latency_metric.rs
+++ b/src/metrics/latency_metric.rs
@@ -464,7 +464,9 @@ macro_rules! percentile_latency_metric {
                 let Some(other) = other.as_any().downcast_ref::<Self>() else {
                     return;
                 };
-                let other_sketch = other.inner.lock().unwrap();
+                // Never hold both locks: two metrics can be aggregated into each other, and clones
+                // of a metric share the same sketch.
+                let other_sketch = other.inner.lock().unwrap().clone();
                 let _ = self.inner.lock().unwrap().merge(&other_sketch);
             }
 
-- 
2.43.0

