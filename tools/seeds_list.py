PRE = r'''
type E = SimpleError<char>;
fn chars(s: &str) -> Vec<char> { s.chars().collect() }
'''

seed("c01-oldest-marker", "C01", [("src/stream.rs", "                    .min()\n                    .unwrap_or(self.index);", "                    .next()\n                    .unwrap_or(self.index);")],
 "a freed marker slot reused by a newer saved position that lies ahead of an older one still held, followed by reading on until the buffer is full and going back to the older one",
 "tokens that can still be returned to are dropped from the buffer", r'''
fn main() {
    let mut st = stream::Stream::<u32, location::Simple>::new(0..64u32);
    let mut keep = vec![];
    // The first slot dies, the vector is full, and the slot is taken by a later position.
    let first = st.save();
    st.advance();
    for _ in 0..3 { keep.push(st.save()); }
    drop(first);
    st.advance();
    st.advance();
    let late = st.save();
    for _ in 0..30 { st.advance(); }
    st.restore(&keep[0]);
    assert_eq!(st.token(), Some(&1));
    for k in 1..40 { assert_eq!(st.token(), Some(&k)); st.advance(); }
    drop(late);
}
''')

seed("c02-stream-prefetch", "C02", [("src/parser.rs", "            Some(self.parser.parse_internal(&mut self.input, true))\n", "            let result = self.parser.parse_internal(&mut self.input, true);\n            self.input.eof();\n            Some(result)\n")],
 "a stream of results over a source whose pulls can be seen",
 "a token beyond the ones a result needed is pulled before the result is handed out", r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let p = just('a').with_error::<SimpleError<_>>();
    let mut st = p.stream("aaaa".chars().inspect(move |_| m.set(m.get() + 1)));
    for k in 1..4 {
        assert_eq!(st.next(), Some(ParseResult::Success('a')));
        assert_eq!(n.get(), k);
    }
}
''')

seed("c03-stream-keeps-start", "C03", [
 ("src/parser.rs", "        Stream {\n            input: stream::Stream::new_with_location(source, start_location),\n            parser: self,\n        }", "        let mut input = stream::Stream::new_with_location(source, start_location);\n        let start = input.save();\n        Stream {\n            input,\n            start,\n            parser: self,\n        }"),
 ("src/parser.rs", "    parser: &'p P,\n", "    parser: &'p P,\n\n    /// Where the first result started.\n    start: stream::SavedState,\n") ,
 ("src/parser.rs", "    pub fn tail(self) -> Tail<'i, I, <P::Error as error::Error<'i, I>>::LocationTracker> {\n", "    pub fn tail(self) -> Tail<'i, I, <P::Error as error::Error<'i, I>>::LocationTracker> {\n        drop(self.start);\n"),
 ],
 "a long stream of results; memory held for tokens",
 "all tokens ever read stay in memory while streaming", r'''
use std::{cell::Cell, rc::Rc};
struct Tok(Rc<Cell<i64>>);
impl Tok { fn new(c: &Rc<Cell<i64>>) -> Tok { c.set(c.get() + 1); Tok(c.clone()) } }
impl Clone for Tok { fn clone(&self) -> Tok { Tok::new(&self.0) } }
impl Drop for Tok { fn drop(&mut self) { self.0.set(self.0.get() - 1) } }
impl PartialEq for Tok { fn eq(&self, _: &Tok) -> bool { true } }
impl Eq for Tok {}
impl std::hash::Hash for Tok { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
fn main() {
    let live = Rc::new(Cell::new(0));
    let l = live.clone();
    let p = filter(|_: &Tok| true).ignored::<()>().with_error::<SimpleError<Tok>>();
    let mut st = p.stream((0..20000).map(move |_| Tok::new(&l)));
    let mut max = 0;
    while let Some(r) = st.next() { assert!(r.is_ok()); max = max.max(live.get()); }
    assert!(max < 1000, "{max} tokens held");
}
''')

seed("c04-chain-second", "C04", [("src/algorithm.rs", "                    // Need to restore the state here, previous  parsers\n                    // will have mutated it.\n                    stream.restore(&initial);\n", "                    // Need to restore the state here if previous parsers\n                    // have mutated it.\n                    if output.len() > 1 {\n                        stream.restore(&initial);\n                    }\n")],
 "a chain whose second parser fails after the first consumed something", "a failed chain keeps the tokens of its first parser", r'''
fn main() {
    let p = just('a').chain(just('b')).with_error::<SimpleError<_>>();
    let mut st = p.stream("ac".chars());
    assert!(matches!(st.next(), Some(ParseResult::Failed(1, _))));
    assert_eq!(st.tail().collect::<String>(), "ac");
}
''')

seed("c04-trymap-err", "C04", [("src/combinator.rs", "                    assert!(!es.is_empty());\n                    stream.restore(&initial);\n                    parser::Result::Failed(stream.index_at(&initial), es)\n                }\n                TryMapResult::Recovered", "                    assert!(!es.is_empty());\n                    if !enable_recovery {\n                        stream.restore(&initial);\n                    }\n                    parser::Result::Failed(stream.index_at(&initial), es)\n                }\n                TryMapResult::Recovered")],
 "a fallible mapping whose function rejects, run with recovery allowed", "the rejected tokens stay consumed", r'''
fn main() {
    let p = just('a').try_map(|_, s| TryMapResult::<char, _>::Err(vec![SimpleError::custom("no", At::Span(s))])).with_error::<SimpleError<_>>();
    let mut st = p.stream("ab".chars());
    assert!(matches!(st.next(), Some(ParseResult::Failed(0, _))));
    assert_eq!(st.tail().collect::<String>(), "ab");
}
''')

seed("c05-alters-order", "C05", [("src/combinator.rs", "        let mut parsers = self.parsers;\n        parsers.push(other.boxed());\n        Alters { parsers }", "        let mut parsers = self.parsers;\n        parsers.insert(2, other.boxed());\n        Alters { parsers }")],
 "four or more alternatives of which the third and a later one match the same input", "alternatives after the second are tried in reverse order", r'''
fn main() {
    let p = just('a').to(1).alters(just('b').to(2)).and(just('c').to(3)).and(just('c').to(4)).with_error::<SimpleError<_>>();
    assert_eq!(p.parse("c".chars()), Ok(3));
}
''')

seed("c06-recover-one-more", "C06", [("src/algorithm.rs", "        let recover = enable_recovery && output.len() < minimum;", "        let recover = enable_recovery && output.len() <= minimum;")],
 "a repetition whose item can recover, with the item after the required minimum failing", "an optional item that is not there is recovered into the list", r'''
fn main() {
    let p = just('a').to_recover(skip().and_return('R')).repeated().at_least(1).with_error::<SimpleError<_>>();
    let mut st = p.stream("ab".chars());
    assert_eq!(st.next(), Some(ParseResult::Success(vec!['a'])));
    assert_eq!(st.tail().collect::<String>(), "b");
}
''')

seed("c07-concat-order", "C07", [("src/algorithm.rs", "                        if let Some(es) = &mut recovery {\n                            es.extend(es_b);\n                        } else {\n                            recovery = Some(es_b);\n                        }\n                        b\n                    }\n                    crate::parser::Result::Failed(i, es) => {\n                        // Need", "                        if let Some(es) = &mut recovery {\n                            es.splice(0..0, es_b);\n                        } else {\n                            recovery = Some(es_b);\n                        }\n                        b\n                    }\n                    crate::parser::Result::Failed(i, es) => {\n                        // Need")],
 "two parts of a sequence that both recover", "errors of recovered parts are listed in reverse order", r'''
fn main() {
    let a = just('a').to_recover(skip().and_return('A'));
    let b = just('b').to_recover(skip().and_return('B'));
    let p = a.then(b).with_error::<SimpleError<_>>();
    match p.parse_with_recovery("xy".chars()) {
        ParseResult::Recovered(_, es) => {
            assert_eq!(es[0].location(), At::Span(&(0..1)));
            assert_eq!(es[1].location(), At::Span(&(1..2)));
        }
        r => panic!("{r:?}"),
    }
}
''')

seed("c08-ties", "C08", [("src/algorithm.rs", "    failures.sort_by_key(|x| std::cmp::Reverse(x.0));\n\n    // If recovery is enabled, try to recover in the above sort order.\n    if enable_recovery {", "    failures.sort_by_key(|x| x.0);\n    failures.reverse();\n\n    // If recovery is enabled, try to recover in the above sort order.\n    if enable_recovery {")],
 "boxed alternatives that fail at the same place with errors that are not merged, or that both recover", "the last of equally far alternatives decides instead of the first", r'''
fn main() {
    let a = just('a').to(1).to_recover(skip().and_return(10));
    let b = just('b').to(2).to_recover(skip().and_return(20));
    let p = a.alters(b).with_error::<SimpleError<_>>();
    match p.parse_with_recovery("x".chars()) {
        ParseResult::Recovered(o, _) => assert_eq!(o, 10),
        r => panic!("{r:?}"),
    }
}
''')

seed("c09-silent-failed-at", "C09", [("src/recovery.rs", "            .or_else(|| match self.parser.parse_internal(stream, !self.exact) {\n                parser::Result::Success(o) => Some(o),\n                parser::Result::Recovered(o, es) => {\n                    if !self.silent {\n                        errors.extend(es);\n                    }\n                    Some(o)\n                }\n                parser::Result::Failed(i, es) => {\n                    if !self.silent {\n                        errors.extend(es);\n                    }\n", "            .or_else(|| match self.parser.parse_internal(stream, !self.exact) {\n                parser::Result::Success(o) => Some(o),\n                parser::Result::Recovered(o, es) => {\n                    if !self.silent {\n                        errors.extend(es);\n                    }\n                    Some(o)\n                }\n                parser::Result::Failed(i, es) => {\n                    if self.silent {\n                        return None;\n                    }\n                    errors.extend(es);\n")],
 "a silent try_to_parse that fails, followed by seek_to_failed", "seek_to_failed goes to where an earlier parser failed", r'''
fn main() {
    let p = just('a')
        .to_recover(attempt_to().try_to_parse(just('b').then_ignore(just('c'))).silently().seek_to_failed().and_return('R'))
        .with_error::<SimpleError<_>>();
    let mut st = p.stream("bx".chars());
    assert!(matches!(st.next(), Some(ParseResult::Recovered('R', _))));
    assert_eq!(st.tail().collect::<String>(), "x");
}
''')

seed("c10-eof-order", "C10", [("src/scanner.rs", "        while let Some((_, left_token, left_span)) = self.stack.pop() {\n            errors.push(E::unmatched_left_delimiter(\n                left_token,\n                left_span,\n                error::At::Location(location.clone()),", "        for (_, left_token, left_span) in self.stack.drain(..) {\n            errors.push(E::unmatched_left_delimiter(\n                left_token,\n                left_span,\n                error::At::Location(location.clone()),")],
 "two delimiters still open at the end of input", "unclosed delimiters are reported outermost first", r'''
fn main() {
    let p = just('a').to_recover(scan(nested_delimiters(&[('(', ')'), ('[', ']')])).and_return('R')).with_error::<SimpleError<_>>();
    match p.parse_with_recovery("([x".chars()) {
        ParseResult::Recovered(_, es) => assert!(matches!(&es[1], SimpleError::UnmatchedLeftDelimiter('[', _, _)), "{es:?}"),
        r => panic!("{r:?}"),
    }
}
''')

seed("c10-lookup-depth", "C10", [("src/scanner.rs", "                    .iter()\n                    .any(|(left_index, _, _)| *left_index == right_index)", "                    .iter()\n                    .skip(1)\n                    .any(|(left_index, _, _)| *left_index == right_index)")],
 "a wrong closing delimiter whose partner is the outermost open one", "the innermost is closed as a type mismatch instead of closing up to the partner", r'''
fn main() {
    let p = just('a').to_recover(scan(nested_delimiters(&[('(', ')'), ('[', ']')])).skip().and_return('R')).with_error::<SimpleError<_>>();
    let mut st = p.stream("([)x)".chars());
    match st.next() {
        Some(ParseResult::Recovered(_, es)) => assert!(matches!(&es[1], SimpleError::UnmatchedLeftDelimiter('[', _, _)), "{es:?}"),
        r => panic!("{r:?}"),
    }
    assert_eq!(st.tail().collect::<String>(), "x)");
}
''')

seed("c11-offset-chars", "C11", [("src/location.rs", "        self.offset += s.as_bytes().len();", "        self.offset += s.chars().count();")],
 "a token with text outside ASCII before the place reported", "byte offsets count characters", r'''
fn main() {
    let loc = location::Rich::new("f", |s: &&str| -> &str { s });
    let p = just("é").ignore_then(just("b")).with_error::<SimpleError<&str, _>>();
    let _ = &loc;
    let mut st = stream::Stream::new_with_location(vec!["é", "x"], loc);
    st.advance();
    assert_eq!(st.location().offset.offset, 2);
    let _ = p.parse_internal(&mut st, false);
}
''')

seed("c12-fuse", "C12", [
 ("src/parser.rs", "        if self.input.eof() {\n            None\n        } else {\n            Some(self.parser.parse_internal(&mut self.input, true))\n        }", "        if self.input.eof() || self.stuck {\n            return None;\n        }\n        let index = self.input.index();\n        let result = self.parser.parse_internal(&mut self.input, true);\n        self.stuck = result.tree().is_some() && self.input.index() == index;\n        Some(result)"),
 ("src/parser.rs", "    parser: &'p P,\n", "    parser: &'p P,\n\n    /// Set when the parser stopped making progress.\n    stuck: bool,\n"),
 ("src/parser.rs", "            input: stream::Stream::new_with_location(source, start_location),\n            parser: self,\n", "            input: stream::Stream::new_with_location(source, start_location),\n            parser: self,\n            stuck: false,\n"),
 ], "a result that consumed nothing, with tokens left", "the stream of results ends although tokens are left", r'''
fn main() {
    let p = just('a').or_not().with_error::<SimpleError<_>>();
    let mut st = p.stream("ab".chars());
    assert_eq!(st.next(), Some(ParseResult::Success(Some('a'))));
    assert_eq!(st.next(), Some(ParseResult::Success(None)));
    assert_eq!(st.next(), Some(ParseResult::Success(None)));
}
''')

seed("c13-string-bytes", "C13", [("src/container.rs", "impl Container<char> for String {\n    fn get_iter(&self) -> BoxedIter<char> {\n        self.chars().boxed()", "impl Container<char> for String {\n    fn get_iter(&self) -> BoxedIter<char> {\n        self.bytes().map(char::from).boxed()")],
 "a String with characters outside ASCII as the set of a matcher", "the matcher accepts and reports the wrong characters", r'''
fn main() {
    let p = one_of(String::from("aé")).with_error::<SimpleError<char>>();
    assert_eq!(p.parse("é".chars()), Ok('é'));
}
''')

seed("c13-seq-index", "C13", [("src/primitive.rs", "        stream.attempt(|stream| {\n            // Match concatenation of tokens returned by expected.\n            for expected in self.expected.get_iter() {", "        let start = stream.index();\n        stream.attempt(|stream| {\n            // Match concatenation of tokens returned by expected.\n            for expected in self.expected.get_iter() {"),
  ("src/primitive.rs", "                    return Err(parser::Result::Failed(\n                        stream.index(),\n                        vec![E::expected_found(\n                            [Some(expected)],", "                    return Err(parser::Result::Failed(\n                        if found.is_some() { stream.index() } else { start },\n                        vec![E::expected_found(\n                            [Some(expected)],")],
 "a token sequence cut short by the end of input", "the failure position is the start of the sequence instead of the end of input", r'''
fn main() {
    let p = seq("abc").with_error::<SimpleError<char>>();
    assert!(matches!(p.parse_with_recovery("ab".chars()), ParseResult::Failed(2, _)));
}
''')

seed("c14-last-error", "C14", [("src/parser.rs", "            Result::Recovered(_, mut es) => Err(es\n                .drain(..)\n                .next()\n", "            Result::Recovered(_, mut es) => Err(es\n                .pop()\n")],
 "a plain parse of an input that recovers from two errors", "the plain parse returns the last error instead of the first", r'''
fn main() {
    let a = just('a').to_recover(skip().and_return('A'));
    let b = just('b').to_recover(skip().and_return('B'));
    let p = a.then(b).with_error::<SimpleError<_>>();
    assert_eq!(p.parse("xy".chars()).unwrap_err().location(), At::Span(&(0..1)));
}
''')

seed("c15-boxed-strategy", "C15", [("src/recovery.rs", "        self.strategy\n            .recover(parser, stream, started_at, failed_at, errors)", "        let index = stream.index_at(failed_at).max(stream.index());\n        let mut failed_at = stream.save_at(index);\n        self.strategy\n            .recover(parser, stream, started_at, &mut failed_at, errors)")],
 "a boxed strategy that runs a parser which fails, followed by seek_to_failed outside of the box", "boxing a strategy loses where its last parser failed", r'''
fn main() {
    let mk = |b: bool| {
        let s = attempt_to::<char, primitive::Just<char, SimpleError<char>>>().try_to_parse(just('b').then_ignore(just('c')));
        let r: ParseResult<char, SimpleError<char>>;
        if b {
            r = just('a').to_recover(s.boxed().seek_to_failed().and_return_with_span(|s: std::ops::Range<usize>| if s == (0..1) { 'y' } else { 'n' })).parse_with_recovery("bx".chars());
        } else {
            r = just('a').to_recover(s.seek_to_failed().and_return_with_span(|s: std::ops::Range<usize>| if s == (0..1) { 'y' } else { 'n' })).parse_with_recovery("bx".chars());
        }
        r
    };
    assert_eq!(mk(false), mk(true));
}
''')

seed("c16-many-expected", "C16", [("src/error.rs", "                        for expected in &expected[1..expected.len() - 1] {", "                        for expected in expected[1..expected.len() - 1].iter().take(8) {")],
 "an error with more than ten expected tokens", "some expected tokens are missing from the message", r'''
fn main() {
    let t = location::Rich::new("f", |_: &char| -> &str { "x" });
    fn mk<F: Fn(&char) -> &str>(_: &location::Rich<char, F>, e: SimpleError<char, location::Rich<char, F>>) -> SimpleError<char, location::Rich<char, F>> { e }
    let e = mk(&t, SimpleError::expected_found("abcdefghijkl".chars().map(Some), Some('z'), At::None));
    let s = e.to_string();
    for c in "abcdefghijkl".chars() { assert!(s.contains(&format!(" {c}")), "{s}"); }
}
''')

seed("c16-mismatch-swapped", "C16", [("src/error.rs", 'write!(f, "left {lt} ({ls}) does not match right {rt} ({rs})")', 'write!(f, "left {lt} ({rs}) does not match right {rt} ({ls})")')],
 "rendering a delimiter mismatch", "the spans of the two delimiters are swapped", r'''
fn main() {
    use location::Tracker;
    let t = location::Rich::new("f", |_: &char| -> &str { "x" });
    fn mk<F: Fn(&char) -> &str>(_: &location::Rich<char, F>, e: SimpleError<char, location::Rich<char, F>>) -> SimpleError<char, location::Rich<char, F>> { e }
    let mut u = t.clone();
    u.advance(&'a');
    let mut v = u.clone();
    v.advance(&'a');
    let e = mk(&t, SimpleError::unmatched_delimiter_type('(', t.spanning_to(0, &u, 1), ']', u.spanning_to(1, &v, 2)));
    let s = e.to_string();
    assert!(s.find("1:1..1:2").unwrap() < s.find("1:2..1:3").unwrap(), "{s}");
}
''')

seed("c17-capacity", "C17", [("src/algorithm.rs", "    // Parse items.\n    loop {", "    // Parse items; there are rarely more of them than this.\n    output.reserve(maximum.unwrap_or(minimum));\n    loop {")],
 "a repetition with a huge maximum", "parsing panics before reading anything", r'''
fn main() {
    let p = just('a').repeated().at_most(usize::MAX).with_error::<SimpleError<_>>();
    assert_eq!(p.parse("aa".chars()), Ok(vec!['a', 'a']));
}
''')

seed("c18-trymap-index", "C18", [("src/combinator.rs", "                    assert!(!es.is_empty());\n                    stream.restore(&initial);\n                    parser::Result::Failed(stream.index_at(&initial), es)\n                }\n                TryMapResult::Recovered", "                    assert!(!es.is_empty());\n                    let index = stream.index();\n                    stream.restore(&initial);\n                    parser::Result::Failed(index, es)\n                }\n                TryMapResult::Recovered")],
 "a fallible mapping that rejects what it parsed, observed through the failure position", "the rejection is reported at the end instead of the start", r'''
fn main() {
    let p = just('a').try_map(|_, s| TryMapResult::<char, _>::Err(vec![SimpleError::custom("no", At::Span(s))])).with_error::<SimpleError<_>>();
    assert!(matches!(p.parse_with_recovery("ab".chars()), ParseResult::Failed(0, _)));
}
''')

seed("c18-trymap-lost", "C18", [("src/parser.rs", "                Result::Failed(i, es2) => {\n                    es.extend(es2);\n                    Result::Failed(i, es)\n                }", "                Result::Failed(i, es2) => Result::Failed(i, es2),")],
 "a fallible mapping that rejects the output of a recovered parser", "the errors recovered from are lost", r'''
fn main() {
    let p = just('a').to_recover(skip().and_return('A'))
        .try_map(|_, s| TryMapResult::<char, _>::Err(vec![SimpleError::custom("no", At::Span(s))])).with_error::<SimpleError<_>>();
    match p.parse_with_recovery("x".chars()) {
        ParseResult::Failed(_, es) => assert_eq!(es.len(), 2),
        r => panic!("{r:?}"),
    }
}
''')

seed("c19-maperr-recovered", "C19", [("src/combinator.rs", "            .map_err(|e| (self.map)(e, stream.spanning_back_to(&from)))", "            .map_err({\n                let span_start = from;\n                let mut first = true;\n                move |e| {\n                    if !std::mem::take(&mut first) {\n                        stream.restore(&span_start);\n                    }\n                    (self.map)(e, stream.spanning_back_to(&span_start))\n                }\n            })")],
 "an error mapping with span over a recovered result with two errors", "later errors get an empty span and the tokens are given back", r'''
fn main() {
    let p = just('a').to_recover(skip().push_error(|| SimpleError::simple("x")).and_return('A'))
        .map_err_with_span(|_: SimpleError<char>, s| SimpleError::<char>::custom("m", At::Span(s)));
    match p.parse_with_recovery("x".chars()) {
        ParseResult::Recovered(_, es) => { assert_eq!(es.len(), 2); for e in es { assert_eq!(e.location(), At::Span(&(0..1))); } }
        r => panic!("{r:?}"),
    }
}
''')

seed("c11-mapspan-eof", "C11", [("src/stream.rs", "        if let Some(token) = self.token() {\n            end.advance(token);\n            end_index += 1;\n        }", "        if let Some(token) = self.token() {\n            end.advance(token);\n        }\n        end_index += 1;")],
 "an error reported at the end of input", "the span at the end of input covers a token that does not exist", r'''
fn main() {
    let p = just('a').with_error::<SimpleError<char>>();
    match p.parse("".chars()) { Err(e) => assert_eq!(e.location(), At::Span(&(0..0))), _ => panic!() }
}
''')

seed("c20-alters-hint", "C20", [
 ("src/combinator.rs", "pub struct Alters<'i, I, O, E> {\n    pub(crate) parsers: Vec<Boxed<'i, I, O, E>>,\n}", "pub struct Alters<'i, I, O, E> {\n    pub(crate) parsers: Vec<Boxed<'i, I, O, E>>,\n    /// The alternative that matched last, tried first at the start of the input.\n    pub(crate) hint: std::cell::Cell<usize>,\n}"),
 ("src/combinator.rs", "impl<'i, I, O, E> Clone for Alters<'i, I, O, E> {\n    fn clone(&self) -> Self {\n        Self {\n            parsers: self.parsers.clone(),\n", "impl<'i, I, O, E> Clone for Alters<'i, I, O, E> {\n    fn clone(&self) -> Self {\n        Self {\n            parsers: self.parsers.clone(),\n            hint: Default::default(),\n"),
 ("src/combinator.rs", "        algorithm::alternate(stream, enable_recovery, &self.parsers)\n", "        if stream.index() > 0 {\n            return algorithm::alternate(stream, enable_recovery, &self.parsers);\n        }\n        if let parser::Result::Success(o) = self.parsers[self.hint.get()].parse_internal(stream, false) {\n            return parser::Result::Success(o);\n        }\n        for (k, parser) in self.parsers.iter().enumerate() {\n            if let parser::Result::Success(o) = parser.parse_internal(stream, false) {\n                self.hint.set(k);\n                return parser::Result::Success(o);\n            }\n        }\n        algorithm::alternate(stream, enable_recovery, &self.parsers)\n"),
 ("src/combinator.rs", "        Alters { parsers }", "        Alters { parsers, hint: Default::default() }"),
 ("src/parser.rs", "        combinator::Alters {\n            parsers: vec![self.boxed(), other.boxed()],\n", "        combinator::Alters {\n            hint: Default::default(),\n            parsers: vec![self.boxed(), other.boxed()],\n"),
 ],
 "a parser with overlapping alternatives at the start of the input, used on one input and then on another",
 "the alternative that matched in an earlier parse takes precedence over the ones before it", r'''
fn main() {
    let p = just('a').then(just('x')).ignored::<()>().to("ax")
        .alters(just('a').ignored::<()>().to("a")).with_error::<SimpleError<_>>();
    assert_eq!(p.parse("ay".chars()), Ok("a"));
    assert_eq!(p.parse("ax".chars()), Ok("ax"));
}
''')

GUARD = [
 ("src/recursive.rs", "pub struct Recursive<'i, I, O, E> {\n", "pub struct Recursive<'i, I, O, E> {\n    /// %s\n    guard: Rc<std::cell::Cell<%s>>,\n"),
 ("src/recursive.rs", "        Self {\n            inner: self.inner.clone(),\n", "        Self {\n            guard: self.guard.clone(),\n            inner: self.inner.clone(),\n"),
 ("src/recursive.rs", "        Self {\n            inner: Default::default(),\n", "        Self {\n            guard: Default::default(),\n            inner: Default::default(),\n"),
 ("src/recursive.rs", "        self.inner\n            .borrow()\n            .as_ref()\n            .expect(\"recursive parser is not defined\")\n            .parse_internal(stream, enable_recovery)\n", "%s"),
]
def guard(doc, ty, body):
    return [(GUARD[0][0], GUARD[0][1], GUARD[0][2] % (doc, ty))] + GUARD[1:3] + [(GUARD[3][0], GUARD[3][1], body)]

seed("c20-depth-guard", "C20", guard("How deep the recursion is at the moment.", "usize", '''        if self.guard.get() >= 500 {
            return parser::Result::Failed(stream.index(), vec![]);
        }
        self.guard.set(self.guard.get() + 1);
        let result = self
            .inner
            .borrow()
            .as_ref()
            .expect("recursive parser is not defined")
            .parse_internal(stream, enable_recovery);
        if let parser::Result::Failed(_, _) = result {
            return result;
        }
        self.guard.set(self.guard.get() - 1);
        result
'''),
 "a recursive parser that has failed very often before (in all parses together)",
 "every failure of a recursive parser counts as one level of nesting for good, and at 500 levels it fails on everything", r'''
fn main() {
    let p = recursive(|p| just('(').ignore_then(p.clone().or_not()).then_ignore(just(')')).ignored::<()>()).with_error::<SimpleError<_>>();
    for _ in 0..300 {
        assert!(p.parse("(())".chars()).is_ok());
        assert!(p.parse("(()".chars()).is_err());
    }
}
''')

seed("c20-left-recursion-guard", "C20", guard("Token index of the call under way.", "Option<usize>", '''        let index = stream.index();
        let outer = self.guard.replace(Some(index));
        assert!(outer != Some(index), "left recursion");
        let result = self
            .inner
            .borrow()
            .as_ref()
            .expect("recursive parser is not defined")
            .parse_internal(stream, enable_recovery);
        self.guard.set(outer);
        result
'''),
 "a parse that is abandoned by a panic of user code, or user code that parses something else with the same parser",
 "a recursive parser takes the use of it on another input for left recursion and panics", r'''
use std::cell::RefCell;
use std::rc::Rc;
fn main() {
    let me: Rc<RefCell<Option<Recursive<'static, char, char, SimpleError<char>>>>> = Default::default();
    let you = me.clone();
    let p = recursive(move |p: &Recursive<'static, char, char, SimpleError<char>>| {
        just('(').ignore_then(p.clone()).then_ignore(just(')')).or(just('a').map(move |c| {
            if let Some(p) = you.take() {
                assert_eq!(p.parse("(a)".chars()), Ok('a'));
            }
            c
        }))
    });
    *me.borrow_mut() = Some(p.clone());
    assert_eq!(p.parse("a".chars()), Ok('a'));
}
''')

seed("c02-tail-prefetch", "C02", [("src/parser.rs", "        let result = self.input.token().cloned();\n        self.input.advance();\n        result\n", "        let result = self.input.token().cloned();\n        if self.input.advance() {\n            self.input.token();\n        }\n        result\n")],
 "the rest after a stream of results taken token by token from a source whose pulls can be seen",
 "the token after the one handed out is pulled with it", PRE + r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let p = just('a').with_error::<SimpleError<_>>();
    let mut st = p.stream("abcdef".chars().inspect(move |_| m.set(m.get() + 1)));
    assert_eq!(st.next(), Some(ParseResult::Success('a')));
    let mut tail = st.tail();
    for k in 2..5 {
        tail.next();
        assert_eq!(n.get(), k);
    }
}
''')

seed("c06-separator-kept", "C06", [("src/combinator.rs", "        self.separator = Some(separator);", "        self.separator = self.separator.or(Some(separator));")],
 "a repetition that is given a separator a second time",
 "the first separator stays in use", PRE + r'''
fn main() {
    let p = just('a').with_error::<E>().separated_by(just(';')).with_separator(just(','));
    assert_eq!(p.parse_with_recovery(chars("a,a,a")), ParseResult::Success(chars("aaa")));
    let p = just('a').repeated().with_separator(just('a')).with_separator(just('-')).with_error::<E>();
    let mut s = p.stream(chars("a-a"));
    assert_eq!(s.next(), Some(ParseResult::Success(chars("aa"))));
}
''')

seed("c10-shared-right", "C10", [("src/scanner.rs", "        for (right_index, (_, right)) in self.types.iter().enumerate() {", "        for (right_index, (_, right)) in self.types.iter().enumerate().rev() {")],
 "two delimiter types with the same closing delimiter, and a third type left open inside",
 "the closing delimiter counts for the last type that has it, and the scan goes on too far", PRE + r'''
fn main() {
    let types: &[(char, char)] = &[('(', ')'), ('[', ')'), ('{', '}')];
    let p = just('x').with_error::<E>().to_recover(scan(nested_delimiters(types)).and_return('!'));
    let mut s = p.stream(chars("({)("));
    match s.next() {
        Some(ParseResult::Recovered('!', es)) => assert_eq!(es.len(), 2),
        r => panic!("{r:?}"),
    }
    assert_eq!(s.tail().collect::<String>(), ")(");
}
''')

seed("c10-depth", "C10", [("src/scanner.rs", "            if &token == left {\n", "            if &token == left && self.stack.len() < 256 {\n")],
 "more than 256 delimiters open at the same time",
 "delimiters beyond that depth are not counted, and the scan stops early", PRE + r'''
fn main() {
    let types: &[(char, char)] = &[('(', ')')];
    let p = just('x').with_error::<E>().to_recover(scan(nested_delimiters(types)).skip().and_return('!'));
    let mut s = p.stream(chars(&format!("{}{}abc", "(".repeat(300), ")".repeat(300))));
    match s.next() {
        Some(ParseResult::Recovered('!', es)) => assert_eq!(es.len(), 1),
        r => panic!("{r:?}"),
    }
    assert_eq!(s.tail().collect::<String>(), "abc");
}
''')

seed("c11-return-column", "C11", [("src/location.rs", "                self.row += 1;\n                self.column = 1;\n            } else {", "                self.row += 1;\n                self.column = 1;\n            } else if c != '\\r' {")],
 "a carriage return in the text of a token",
 "the columns behind it are too low", PRE + r'''
type L = location::Rich<char, fn(&char) -> &str>;
fn text(c: &char) -> &str {
    match c { '\r' => "\r", '\n' => "\n", _ => "x" }
}
fn main() {
    let mut st = stream::Stream::<char, L>::new_with_location(chars("ab\rc"), L::new("f", text as fn(&char) -> &str));
    for column in 1..5 {
        assert_eq!(st.location().offset.column, column);
        st.advance();
    }
    assert_eq!(st.location().offset.column, 5);
}
''')

seed("c11-column-16-bits", "C11", [("src/location.rs", "                self.column += 1;\n", "                self.column = (self.column as u16).wrapping_add(1) as usize;\n")],
 "a line of more than 65535 characters",
 "columns start again at zero", PRE + r'''
type L = location::Rich<char, fn(&char) -> &str>;
fn text(_: &char) -> &str { "0123456789abcdef" }
fn main() {
    let mut st = stream::Stream::<char, L>::new_with_location(chars(&"a".repeat(5000)), L::new("f", text as fn(&char) -> &str));
    while st.advance() {}
    assert_eq!(st.location().offset.column, 80001);
}
''')

seed("c09-tentative-kept-position", "C09", [("src/recovery.rs", "                        Some(o) => Ok(Some(o)),\n                        None => Err(None),\n", "                        Some(o) => Ok(Some(o)),\n                        None if errors.len() > 2 => Ok(None),\n                        None => Err(None),\n")],
 "a tentative step that moves and fails while more than two errors are listed",
 "the position stays where the failed step left it", PRE + r'''
fn main() {
    let p = just('x').with_error::<E>().to_recover(
        skip().retry().skip().retry().maybe(skip().skip().skip()).skip().and_return_with_span(|s| { assert_eq!(s, 0..3); '!' }),
    );
    let mut s = p.stream(chars("abcdefgh"));
    assert!(matches!(s.next(), Some(ParseResult::Recovered('!', _))));
    assert_eq!(s.tail().collect::<String>(), "defgh");
}
''')

seed("c08-later-errors", "C08", [("src/algorithm.rs", "        for (_, es2, _) in failures {\n            for e2 in es2 {\n                if e2.is_expected_found() &&", "        for (_, es2, _) in failures {\n            for e2 in es2.into_iter().take(1) {\n                if e2.is_expected_found() &&")],
 "an alternative whose fallible mapping reports several errors, of which a later one names expected tokens at the same place",
 "only the first error of every other alternative is considered", PRE + r'''
fn main() {
    let odd = just('b').with_error::<E>().try_map(|_, s| TryMapResult::<char, E>::Err(vec![
        SimpleError::Custom("odd".into(), error::At::None),
        SimpleError::ExpectedFound([Some('c')].into(), Some('b'), error::At::Span(s)),
    ]));
    let p = just('a').with_error::<E>().alters(odd);
    match p.parse_with_recovery(chars("b")) {
        ParseResult::Failed(0, es) => assert_eq!(es, vec![SimpleError::ExpectedFound([Some('a'), Some('c')].into(), Some('b'), error::At::Span(0..1))]),
        r => panic!("{r:?}"),
    }
}
''')

seed("c03-drain-in-bulk", "C03", [("src/stream.rs", "                if backtrack_index > start_of_buffer {", "                if backtrack_index >= start_of_buffer + 4096 {")],
 "a stream of some thousand tokens, with the tokens alive counted",
 "thousands of tokens that nothing can return to are kept", r'''
use std::{cell::Cell, rc::Rc};
struct Tok(Rc<Cell<i64>>);
impl Tok { fn new(c: &Rc<Cell<i64>>) -> Tok { c.set(c.get() + 1); Tok(c.clone()) } }
impl Drop for Tok { fn drop(&mut self) { self.0.set(self.0.get() - 1) } }
fn main() {
    let live = Rc::new(Cell::new(0));
    let c = live.clone();
    let mut st = stream::Stream::<Tok, location::Simple>::new((0..20000).map(move |_| Tok::new(&c)));
    let mut most = 0;
    while st.advance() { most = most.max(live.get()); }
    assert!(most < 100, "{most}");
}
''')

seed("c09-loop-returns", "C09", [("src/recovery.rs", "                    if let Some(result) = self\n                        .inner\n                        .recover(parser, stream, started_at, failed_at, errors)\n                    {\n                        return Some(result);\n                    }\n                    stream.advance();", "                    let here = stream.save();\n                    if let Some(result) = self\n                        .inner\n                        .recover(parser, stream, started_at, failed_at, errors)\n                    {\n                        return Some(result);\n                    }\n                    stream.restore(&here);\n                    stream.advance();")],
 "a loop over steps that move without giving an output",
 "the loop goes on from where the steps began instead of where they ended", PRE + r'''
fn main() {
    let p = just('x').with_error::<E>().to_recover(while_not(|c| *c == ';', skip()).and_return('!'));
    let mut s = p.stream(chars("a;b;cd;"));
    assert!(matches!(s.next(), Some(ParseResult::Recovered('!', _))));
    assert_eq!(s.tail().collect::<String>(), ";");
}
''')
seed('c03-marker-leak', 'C03',
     [('src/stream.rs', "            for old_marker in self.backtrack_markers.iter_mut().rev() {",
       "            // The last slots are the ones most likely to be free.\n            for old_marker in self.backtrack_markers.iter_mut().rev().take(1) {"),
      ('src/stream.rs', """                // Remove markers that have gone out of scope.
                self.backtrack_markers.retain(|x| x.strong_count() > 0);

""", "")],
     "a parser that holds several positions at once, over a long input: a marker that has gone out of scope is only reused when it is the last one, and no longer removed, so the list grows with the input (two sites; results and buffered tokens stay the same)",
     "the memory the stream holds grows with the length of the input",
     PRE + r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
struct Count;
static HELD: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let parser = just('a').with_error::<E>().then(just('a').or(just('b'))).map_with_span(|_, _| ());
    let before = HELD.load(Ordering::Relaxed);
    let mut s = parser.stream((0..20000).map(|i| if i % 2 == 0 { 'a' } else { 'b' }));
    let mut most = 0;
    while s.next().is_some() {
        most = most.max(HELD.load(Ordering::Relaxed) - before);
    }
    assert!(most < 20000, "{most}");
}
''')

seed("c21-weak-in-closure", "C21", [
 ("src/recursive.rs", "use std::rc::Rc;\n", "use std::rc::{Rc, Weak};\n"),
 ("src/recursive.rs", "    inner: Rc<RefCell<Option<combinator::Boxed<'i, I, O, E>>>>,\n}\n", "    inner: Weak<RefCell<Option<combinator::Boxed<'i, I, O, E>>>>,\n\n    /// What keeps the definition alive. The handle passed to the closure of\n    /// recursive() does not, as that would be a reference cycle.\n    #[allow(clippy::type_complexity)]\n    owner: Option<Rc<RefCell<Option<combinator::Boxed<'i, I, O, E>>>>>,\n}\n"),
 ("src/recursive.rs", "            inner: self.inner.clone(),\n", "            inner: self.inner.clone(),\n            owner: self.owner.clone(),\n"),
 ("src/recursive.rs", "        Self {\n            inner: Default::default(),\n        }\n", "        let owner = Rc::new(RefCell::new(None));\n        Self {\n            inner: Rc::downgrade(&owner),\n            owner: Some(owner),\n        }\n"),
 ("src/recursive.rs", "            self.inner.borrow_mut().replace(", "            self.inner.upgrade().unwrap().borrow_mut().replace("),
 ("src/recursive.rs", "        self.inner\n            .borrow()\n", "        self.inner\n            .upgrade()\n            .expect(\"recursive parser is not defined\")\n            .borrow()\n"),
 ("src/recursive.rs", "    recursive.define(f(&recursive));\n", "    let handle = Recursive {\n        inner: recursive.inner.clone(),\n        owner: None,\n    };\n    recursive.define(f(&handle));\n"),
 ],
 "a handle kept from inside the closure of recursive() and used after the parser recursive() returned is gone",
 "a handle of a defined declaration panics as if it had no definition", PRE + r'''
fn main() {
    let mut kept: Option<Recursive<char, (), E>> = None;
    let whole = recursive(|x: &Recursive<char, (), E>| {
        kept = Some(x.clone());
        just('(').then(x.clone()).to(()).or(just('x').to(()))
    });
    assert!(whole.parse(chars("((x")).is_ok());
    let kept = kept.unwrap();
    assert!(kept.parse(chars("((x")).is_ok());
    drop(whole);
    assert!(kept.parse(chars("((x")).is_ok());
}
''')

seed("c21-redefinition-ignored", "C21", [
 ("src/recursive.rs", "        assert!(\n            self.inner.borrow_mut().replace(parser.boxed()).is_none(),\n            \"multiple definitions for recursive parser\"\n        );\n", "        self.inner.borrow_mut().get_or_insert_with(|| parser.boxed());\n"),
 ],
 "a declaration defined a second time, perhaps through a clone",
 "the second definition is silently ignored instead of being refused", PRE + r'''
fn main() {
    let mut x = Recursive::<char, char, E>::declare();
    let mut y = x.clone();
    x.define(just('a'));
    assert_eq!(y.parse(chars("a")), Ok('a'));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| y.define(just('b'))));
    assert!(r.is_err());
}
''')

seed("c21-use-counter", "C21", [
 ("src/recursive.rs", "    inner: Rc<RefCell<Option<combinator::Boxed<'i, I, O, E>>>>,\n}\n", "    inner: Rc<RefCell<Option<combinator::Boxed<'i, I, O, E>>>>,\n\n    /// How often the parser is running; it cannot be defined meanwhile.\n    running: Rc<std::cell::Cell<usize>>,\n}\n"),
 ("src/recursive.rs", "            inner: self.inner.clone(),\n", "            inner: self.inner.clone(),\n            running: self.running.clone(),\n"),
 ("src/recursive.rs", "            inner: Default::default(),\n", "            inner: Default::default(),\n            running: Default::default(),\n"),
 ("src/recursive.rs", "        assert!(\n            self.inner.borrow_mut()", "        assert_eq!(self.running.get(), 0, \"definition of running parser\");\n        assert!(\n            self.inner.borrow_mut()"),
 ("src/recursive.rs", "        self.inner\n            .borrow()\n            .as_ref()\n            .expect(\"recursive parser is not defined\")\n            .parse_internal(stream, enable_recovery)\n", "        self.running.set(self.running.get() + 1);\n        let result = self\n            .inner\n            .borrow()\n            .as_ref()\n            .expect(\"recursive parser is not defined\")\n            .parse_internal(stream, enable_recovery);\n        self.running.set(self.running.get() - 1);\n        result\n"),
 ],
 "a parse that reaches a declaration before it is defined, then its definition",
 "after parsing panicked for lack of a definition, defining the declaration panics as well", PRE + r'''
fn main() {
    let mut x = Recursive::<char, char, E>::declare();
    let p = just('(').ignore_then(x.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse(chars("(a"))));
    assert!(r.is_err());
    x.define(just('a'));
    assert_eq!(p.parse(chars("(a")), Ok('a'));
}
''')

seed("c03-room-for-whole-source", "C03", [("src/stream.rs", """        J::IntoIter: 'i,
    {
        Self {
            source: Box::new(source.into_iter()),
            source_at_eof: false,
            source_location: start_location,
            buffer: VecDeque::new(),
""", """        J::IntoIter: 'i,
    {
        // Make room for the tokens that are known to come.
        let source = source.into_iter();
        Self {
            buffer: VecDeque::with_capacity(source.size_hint().0),
            source: Box::new(source),
            source_at_eof: false,
            source_location: start_location,
""")],
 "a stream over a source that knows it has very many tokens",
 "memory for all of the input is taken before the first token is read", r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIGGEST.fetch_max(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let p = none_of(vec![u64::MAX]).with_error::<SimpleError<_>>();
    let mut st = p.stream_with_location(0..20_000_000u64, Default::default());
    for k in 0..1000 {
        assert_eq!(st.next(), Some(ParseResult::Success(k)));
    }
    assert!(BIGGEST.load(SeqCst) < 100_000, "{}", BIGGEST.load(SeqCst));
}
''')

seed("c12-tail-skips-absolutely", "C12", [("src/parser.rs", """        let result = self.input.token().cloned();
        self.input.advance();
        result
    }
""", """        let result = self.input.token().cloned();
        self.input.advance();
        result
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // No need to clone the tokens that are skipped.
        let here = self.input.save();
        if self.input.index() < n {
            self.input.advance_to(n);
        }
        drop(here);
        self.next()
    }
""")],
 "the rest of the input of a stream read with nth() or skip() after something was parsed",
 "tokens of the rest are repeated or left out", PRE + r'''
fn main() {
    let p = just('a').with_error::<E>();
    let mut st = p.stream("abcdefgh".chars());
    assert_eq!(st.next(), Some(ParseResult::Success('a')));
    let mut tail = st.tail();
    assert_eq!(tail.next(), Some('b'));
    assert_eq!(tail.nth(1), Some('d'));
    assert_eq!(tail.nth(0), Some('e'));
    assert_eq!(tail.skip(2).collect::<String>(), "h");
}
''')

seed("c12-stuck-stream-ends", "C12", [
 ("src/parser.rs", """    input: stream::Stream<'i, I, <P::Error as error::Error<'i, I>>::LocationTracker>,
    parser: &'p P,
}""", """    input: stream::Stream<'i, I, <P::Error as error::Error<'i, I>>::LocationTracker>,
    parser: &'p P,

    /// How many results did not take any tokens.
    stuck: u8,
}"""),
 ("src/parser.rs", "            input: stream::Stream::new_with_location(source, start_location),\n            parser: self,\n", "            input: stream::Stream::new_with_location(source, start_location),\n            parser: self,\n            stuck: 0,\n"),
 ("src/parser.rs", """        if self.input.eof() {
            None
        } else {
            Some(self.parser.parse_internal(&mut self.input, true))
        }""", """        if self.input.eof() || self.stuck == 16 {
            return None;
        }
        let before = self.input.index();
        let result = self.parser.parse_internal(&mut self.input, true);
        if self.input.index() == before {
            self.stuck += 1;
        }
        Some(result)"""),
 ],
 "a stream on which 16 parses, not necessarily in a row, took no tokens",
 "a stream ends though tokens are left", PRE + r'''
fn main() {
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let m = n.clone();
    // takes nothing every other time
    let p = just('a').or_not().with_error::<E>().map(move |x| { m.set(m.get() + 1); x });
    let mut st = p.stream("ab".chars());
    assert_eq!(st.next(), Some(ParseResult::Success(Some('a'))));
    for _ in 0..100 {
        assert_eq!(st.next(), Some(ParseResult::Success(None)));
    }
    assert_eq!(n.get(), 101);
}
''')

seed("c08-unstable-order", "C08", [("src/algorithm.rs", "    failures.sort_by_key(|x| std::cmp::Reverse(x.0));\n\n    // If recovery is enabled, try", "    failures.sort_unstable_by_key(|x| std::cmp::Reverse(x.0));\n\n    // If recovery is enabled, try")],
 "more than twenty alternatives, several of them failing equally far with errors that are not merged",
 "which of the alternatives that got equally far is reported, or recovers, is arbitrary", PRE + r'''
fn main() {
    let fail = |k: usize| just('x').then(just('y')).to(0)
        .to_recover(attempt_to().skip().skip().and_return(k)).with_error::<E>();
    let short = || just('z').to(0).with_error::<E>();
    let mut p = short().alters(short());
    for k in 0..40 {
        p = if k % 3 == 0 { p.and(short()) } else { p.and(fail(k)) };
    }
    assert!(matches!(p.parse_with_recovery(chars("xq")), ParseResult::Recovered(1, _)));
}
''')

seed("c15-clone-of-long-chain", "C15", [("src/combinator.rs", "impl<'i, I, O, E> Clone for Chain<'i, I, O, E> {\n    fn clone(&self) -> Self {\n        Self {\n            parsers: self.parsers.clone(),", "impl<'i, I, O, E> Clone for Chain<'i, I, O, E> {\n    fn clone(&self) -> Self {\n        Self {\n            parsers: self.parsers.iter().take(8).cloned().collect(),")],
 "a clone of a chain with nine or more children",
 "a clone of a long chain loses children", PRE + r'''
fn main() {
    let mut p = just('a').with_error::<E>().chain(just('b'));
    for c in "cdefghijkl".chars() { p = p.and(just(c)); }
    assert_eq!(p.parse(chars("abcdefghijkl")).map(|x| x.len()), Ok(12));
    assert_eq!(p.clone().parse(chars("abcdefghijkl")).map(|x| x.len()), Ok(12));
}
''')

seed("c14-error-skips-absolutely", "C14", [("src/parser.rs", """    fn next(&mut self) -> Option<Self::Item> {
        match self {
            ErrorIter::None => None,""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if let ErrorIter::Many(_, i) = self {
            *i = usize::max(*i, n);
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {
        match self {
            ErrorIter::None => None,""")],
 "the errors of a result with three or more of them read with nth() or skip() after the first one was taken",
 "errors of a result are repeated", PRE + r'''
fn main() {
    let e = |k: &str| E::simple(k);
    let q = ParseResult::Recovered(1, vec![e("1"), e("2"), e("3"), e("4")]);
    let mut it = q.errors();
    assert_eq!(it.next(), Some(&e("1")));
    assert_eq!(it.nth(1), Some(&e("3")));
    assert_eq!(it.next(), Some(&e("4")));
    assert_eq!(it.next(), None);
}
''')

seed("c06-leading-separator-recovers", "C06", [("src/algorithm.rs", "separator, stream, recover && !output.is_empty())", "separator, stream, recover)")],
 "a repetition with a minimum whose leading separator is allowed and has a recovery strategy, and input without that separator",
 "an optional leading separator that is not there is reported, and what the strategy takes is lost to the first item", PRE + r'''
fn main() {
    let sep = just(',').to(()).to_recover(attempt_to().skip().and_return(())).with_error::<E>();
    let p = just('a').with_error::<E>().separated_by(sep).allow_leading().at_least(1);
    assert_eq!(p.parse_with_recovery(chars("a")), ParseResult::Success(vec!['a']));
    assert_eq!(p.parse_with_recovery(chars(",a")), ParseResult::Success(vec!['a']));
}
''')

seed("c22-recover-runs-twice", "C22", [("src/combinator.rs", """        match self.parser.parse_internal(stream, enable_recovery) {
            parser::Result::Failed(last_token_matched, mut errors) => {
                if !enable_recovery {""", """        // As for alternatives, only recover within the parser if it fails
        // without.
        let strict = match self.parser.parse_internal(stream, false) {
            parser::Result::Failed(_, _) if enable_recovery => {
                self.parser.parse_internal(stream, true)
            }
            r => r,
        };
        match strict {
            parser::Result::Failed(last_token_matched, mut errors) => {
                if !enable_recovery {""")],
 "parsers with recovery strategies nested in each other and input that the inner ones fail on",
 "each level of recovery runs everything within it twice, so the time needed doubles with every level", PRE + r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let leaf = filter(move |c: &char| { m.set(m.get() + 1); *c == 'a' }).to(0).with_error::<E>();
    let mut p = leaf.boxed();
    for _ in 0..12 {
        p = p.to_recover(attempt_to().skip().or_fail()).boxed();
    }
    assert!(!p.parse_with_recovery(chars("b")).is_ok());
    assert_eq!(n.get(), 1);
    n.set(0);
    assert!(p.parse_with_recovery(chars("a")).is_ok());
    assert_eq!(n.get(), 1);
}
''')

seed("c22-recovers-all-alternatives", "C22", [("src/algorithm.rs", """        for (_, _, parser) in &failures {
            match parser::Parser::parse_internal(*parser, stream, true) {
                parser::Result::Success(_) => {
                    unreachable!("parser that previously failed now magically succeeded")
                }
                parser::Result::Recovered(o, es) => return parser::Result::Recovered(o, es),
                parser::Result::Failed(_, _) => (),
            }
        }
""", """        // The one with the fewest errors wins; of those, the first.
        let initial = stream.save();
        let mut best: Option<(crate::stream::SavedState, O, Vec<E>)> = None;
        for (furthest, _, parser) in &failures {
            if best.is_some() && *furthest != failures[0].0 {
                break;
            }
            match parser::Parser::parse_internal(*parser, stream, true) {
                parser::Result::Success(_) => {
                    unreachable!("parser that previously failed now magically succeeded")
                }
                parser::Result::Recovered(o, es) => {
                    if best.is_none() {
                        best = Some((stream.save(), o, es));
                    }
                    stream.restore(&initial);
                }
                parser::Result::Failed(_, _) => (),
            }
        }
        if let Some((end, o, es)) = best {
            stream.restore(&end);
            return parser::Result::Recovered(o, es);
        }
""")],
 "several alternatives that fail equally far and can all recover",
 "alternatives are run although another one has recovered already", PRE + r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let alt = |c: char, k: i32| {
        let n = n.clone();
        just(c).to(k).to_recover(attempt_to().skip().and_return_with(move || { n.set(n.get() + 1); -k })).with_error::<E>()
    };
    let p = alt('a', 1).alters(alt('b', 2)).and(alt('c', 3));
    assert!(matches!(p.parse_with_recovery(chars("x")), ParseResult::Recovered(-1, _)));
    assert_eq!(n.get(), 1);
}
''')

seed("c22-one-item-too-many", "C22", [("src/algorithm.rs", """        );
    }

    // Return success or recovered based on whether any of the parsers
    // resovered.
    if let Some(es) = recovery {
        assert!(enable_recovery);
        parser::Result::Recovered(output, es)
    } else {
        parser::Result::Success(output)
    }
}

macro_rules! count""", """        );
    }

    // See whether the maximum was in the way of an item.
    if separator.is_none() && minimum < max && output.len() == max && !stream.eof() {
        let end = stream.save();
        let _ = parser::Parser::parse_internal(parser, stream, false);
        stream.restore(&end);
    }

    // Return success or recovered based on whether any of the parsers
    // resovered.
    if let Some(es) = recovery {
        assert!(enable_recovery);
        parser::Result::Recovered(output, es)
    } else {
        parser::Result::Success(output)
    }
}

macro_rules! count""")],
 "a repetition without separator that takes its maximum number of items",
 "the item is run once more after the maximum", PRE + r'''
use std::{cell::Cell, rc::Rc};
fn main() {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let item = just('a').map(move |_| m.set(m.get() + 1)).with_error::<E>();
    let p = item.repeated().at_most(3);
    assert_eq!(p.parse(chars("aaaaa")), Ok(vec![(); 3]));
    assert_eq!(n.get(), 3);
}
''')
