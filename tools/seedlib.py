"""Shared pieces of the planted bugs in seeds/."""
def basic_field(decl, init):
    """Edits that give BasicConsumer one more field."""
    return [("src/consumer.rs","    pub(crate) computed_column_spans: bool,\n}\nimpl BasicConsumer {","    pub(crate) computed_column_spans: bool,\n    pub(crate) %s,\n}\nimpl BasicConsumer {"%decl),
("src/consumer.rs","""            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        BasicConsumer {""","""            computed_column_spans: false,
            %s,
        }
    }

    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        BasicConsumer {"""%init),
("src/consumer.rs","""            computed_column_spans: false,
        }
    }

    pub fn from_source_map(
""","""            computed_column_spans: false,
            %s,
        }
    }

    pub fn from_source_map(
"""%init)]
def demo(body):
    return "#![allow(unused_imports)]\nuse rusty_source_map::consumer::*;\nuse rusty_source_map::generator::SourceMapGenerator;\nuse rusty_source_map::mapping::Mapping;\nuse rusty_source_map::source_map::Position;\nuse source_map_mappings::Bias;\nfn main(){\n"+body+"}\n"
