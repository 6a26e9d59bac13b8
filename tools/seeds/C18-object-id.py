from seedlib import *
property="C18"
needs="256 consumers made in one process, and the same position asked of the first and the last"
breaks="the answer of the consumer made 256 consumers earlier is given"
edits=basic_field("id: u8","id: COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as u8")+[
("src/consumer.rs","pub struct BasicConsumer {","""static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

type Found = HashMap<(u8, i32, i32), Option<source_map_mappings::Mapping>>;
thread_local! {
    /// What was looked up last, by consumer.
    static FOUND: RefCell<Found> = Default::default();
}

pub struct BasicConsumer {"""),
("src/consumer.rs","""        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
""","""        let key = (self.id, generated_line, generated_column);
        let known = match bias {
            source_map_mappings::Bias::GreatestLowerBound if !self.computed_column_spans => {
                FOUND.with(|it| it.borrow().get(&key).cloned())
            }
            _ => None,
        };
        let mapping = match known {
            Some(it) => it,
            None => {
                let lower = matches!(bias, source_map_mappings::Bias::GreatestLowerBound);
                let it = mappings
                    .original_location_for(
                        (generated_line - 1) as u32,
                        generated_column as u32,
                        bias,
                    )
                    .cloned();
                if lower {
                    FOUND.with(|found| found.borrow_mut().insert(key, it.clone()));
                }
                it
            }
        };
""")]
demo=demo('''
 for k in 0..600u32 {
  let d=["A","C","E","G","I","K"][(k/100) as usize];
  let mut c=BasicConsumer::new(&format!(r#"{{"version":3,"sources":["a"],"names":[],"mappings":"AA{}A"}}"#,d),None);
  assert_eq!(c.original_position_for(Position{line:1,column:0},None).unwrap().original.unwrap().line,1+(k/100) as i32);
 }
''')
