NA["C34"] = "equivalence of whole query results quantifies over all relational queries and data and over the behaviour of the upstream engine; no static argument over this repository's source can bound it (its structural ingredients are C01, C17, C19, C26-C29, C31)"
NA["C36"] = "a statement about measured performance; it depends on statistics and hardware, not on anything the source decides"
