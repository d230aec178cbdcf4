//! Genuine defects that are recorded rather than repaired.
//! `known: property=<id> symptom=<class> geometry=<kind> families=<list> pin=<scenario> | <description>`
pub struct Known {
    pub prop: String,
    pub fams: Vec<String>,
    pub kinds: Vec<String>,
    pub class: String,
    /// a scenario that shows it
    pub pin: String,
    pub text: String,
}
impl Known {
    pub fn matches(&self, fam: &str, kind: &str, class: &str) -> bool {
        self.class == class && self.kinds.iter().any(|k| kind.contains(k.as_str())) && self.fams.iter().any(|f| f == fam)
    }
}
pub fn load(path: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(l) = l.strip_prefix("known: property=") else { continue };
        let Some((head, text)) = l.split_once(" | ") else { continue };
        let f: Vec<&str> = head.split_whitespace().collect();
        let list = |k: &str| -> Vec<String> { f.iter().find_map(|x| x.strip_prefix(k)).unwrap_or("").split(',').map(|s| s.replace('_', " ")).collect() };
        let raw = |k: &str| -> Vec<String> { f.iter().find_map(|x| x.strip_prefix(k)).unwrap_or("").split(',').map(|s| s.to_string()).collect() };
        v.push(Known { prop: f[0].into(), fams: raw("families="), kinds: raw("geometry="), class: list("symptom=")[0].clone(), pin: raw("pin=")[0].clone(), text: text.into() });
    }
    v
}
