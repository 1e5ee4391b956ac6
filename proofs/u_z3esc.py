"""convert_z3escapes: the whole function, for every string."""
T = 'amzn-smt-string-fct-updater/src/transpiler.rs'
LITS = ['u{', 'u{07}', 'u{08}', 'u{0C}', 'u{0A}', 'u{0D}', 'u{09}', 'u{0B}']
SPEC = r'''
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (b: bool)
    ensures b == is_hex(*c);

pub open spec fn is_hex(c: char) -> bool {
    ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')
}
/// the two hexadecimal digits of a one-letter escape, if c is one
pub open spec fn letter_code(c: char) -> Option<(char, char)> {
    if c == 'a' { Some(('0', '7')) } else if c == 'b' { Some(('0', '8')) } else if c == 'f' { Some(('0', 'C')) }
    else if c == 'n' { Some(('0', 'A')) } else if c == 'r' { Some(('0', 'D')) } else if c == 't' { Some(('0', '9')) }
    else if c == 'v' { Some(('0', 'B')) } else { None }
}
pub open spec fn uesc(h: char, l: char) -> Seq<char> { seq!['\\', 'u', '{', h, l, '}'] }
/// The documented conversion: z3 escapes become \u{..}, everything else is kept.
pub open spec fn z3conv(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0] != '\\' { seq![s[0]] + z3conv(s.skip(1)) }
    else if s.len() == 1 { s }
    else if letter_code(s[1]) is Some { uesc(letter_code(s[1])->Some_0.0, letter_code(s[1])->Some_0.1) + z3conv(s.skip(2)) }
    else if s[1] == 'x' && s.len() >= 4 && is_hex(s[2]) && is_hex(s[3]) { uesc(s[2], s[3]) + z3conv(s.skip(4)) }
    else if s[1] == 'x' { seq!['\\', 'x'] + z3conv(s.skip(2)) }
    else { seq!['\\', s[1]] + z3conv(s.skip(2)) }
}
proof fn lemma_conv_head(s: Seq<char>)
    requires s.len() > 0, s[0] == '\\',
    ensures z3conv(s).len() > 0, z3conv(s)[0] == '\\',
{ reveal_with_fuel(z3conv, 2); }
proof fn lemma_conv1(c: char, t: Seq<char>)
    requires c != '\\',
    ensures z3conv(seq![c] + t) == seq![c] + z3conv(t),
{ assert((seq![c] + t).skip(1) =~= t); }
pub open spec fn pending(st: State, t: Seq<char>) -> Seq<char> {
    match st {
        State::Base => z3conv(t),
        State::Esc => z3conv(seq!['\\'] + t).skip(1),
        State::EscX => z3conv(seq!['\\', 'x'] + t).skip(1),
        State::EscHex(h) => z3conv(seq!['\\', 'x', h] + t).skip(1),
    }
}
/// one step of the scanner: what has to be appended when c is read in state st, and the next state
pub open spec fn step(st: State, c: char) -> (Seq<char>, State) {
    match st {
        State::Base => (seq![c], if c == '\\' { State::Esc } else { State::Base }),
        State::Esc => if letter_code(c) is Some { (uesc(letter_code(c)->Some_0.0, letter_code(c)->Some_0.1).skip(1), State::Base) }
                      else if c == 'x' { (Seq::empty(), State::EscX) } else { (seq![c], State::Base) },
        State::EscX => if is_hex(c) { (Seq::empty(), State::EscHex(c)) } else { (seq!['x', c], if c == '\\' { State::Esc } else { State::Base }) },
        State::EscHex(h) => if is_hex(c) { (uesc(h, c).skip(1), State::Base) } else { (seq!['x', h, c], if c == '\\' { State::Esc } else { State::Base }) },
    }
}
proof fn lemma_step(st: State, t: Seq<char>)
    requires t.len() > 0, st is EscHex ==> is_hex(st->EscHex_0),
    ensures pending(st, t) == step(st, t[0]).0 + pending(step(st, t[0]).1, t.skip(1)),
{
    reveal_with_fuel(z3conv, 4);
    let c = t[0]; let r = t.skip(1);
    assert(t =~= seq![c] + r);
    match st {
        State::Base => { if c == '\\' { lemma_conv_head(t); assert(z3conv(t) =~= seq!['\\'] + z3conv(t).skip(1)); } }
        State::Esc => {
            let s = seq!['\\'] + t;
            assert(s.skip(2) =~= r);
            if c == 'x' { assert(s =~= seq!['\\', 'x'] + r); assert(pending(st, t) =~= Seq::<char>::empty() + pending(State::EscX, r)); }
            else if letter_code(c) is Some {
                let u = uesc(letter_code(c)->Some_0.0, letter_code(c)->Some_0.1);
                assert((u + z3conv(r)).skip(1) =~= u.skip(1) + z3conv(r));
            } else { assert((seq!['\\', c] + z3conv(r)).skip(1) =~= seq![c] + z3conv(r)); }
        }
        State::EscX => {
            let s = seq!['\\', 'x'] + t;
            assert(s.skip(2) =~= t);
            if is_hex(c) { assert(s =~= seq!['\\', 'x', c] + r); assert(pending(st, t) =~= Seq::<char>::empty() + pending(State::EscHex(c), r)); }
            else {
                assert(s[2] == c);
                assert(pending(st, t) =~= seq!['x'] + z3conv(t));
                if c == '\\' { lemma_conv_head(t); assert(z3conv(t) =~= seq!['\\'] + z3conv(t).skip(1));
                    assert(seq!['x'] + (seq!['\\'] + z3conv(t).skip(1)) =~= seq!['x', c] + z3conv(t).skip(1)); }
                else { lemma_conv1(c, r); assert(seq!['x'] + (seq![c] + z3conv(r)) =~= seq!['x', c] + z3conv(r)); }
            }
        }
        State::EscHex(h) => {
            let s = seq!['\\', 'x', h] + t;
            assert(s[3] == c && s[2] == h);
            if is_hex(c) { assert(s.skip(4) =~= r); assert((uesc(h, c) + z3conv(r)).skip(1) =~= uesc(h, c).skip(1) + z3conv(r)); }
            else {
                assert(s.skip(2) =~= seq![h] + t);
                lemma_conv1(h, t);
                assert(pending(st, t) =~= seq!['x', h] + z3conv(t));
                if c == '\\' { lemma_conv_head(t); assert(z3conv(t) =~= seq!['\\'] + z3conv(t).skip(1));
                    assert(seq!['x', h] + (seq!['\\'] + z3conv(t).skip(1)) =~= seq!['x', h, c] + z3conv(t).skip(1)); }
                else { lemma_conv1(c, r); assert(seq!['x', h] + (seq![c] + z3conv(r)) =~= seq!['x', h, c] + z3conv(r)); }
            }
        }
    }
}
/// what is left to be written when the string ends in state st
pub open spec fn tail(st: State) -> Seq<char> {
    match st { State::EscX => seq!['x'], State::EscHex(h) => seq!['x', h], _ => Seq::empty() }
}
proof fn lemma_end(st: State)
    requires st is EscHex ==> is_hex(st->EscHex_0),
    ensures pending(st, Seq::empty()) == tail(st),
{
    reveal_with_fuel(z3conv, 4);
    let e = Seq::<char>::empty();
    match st {
        State::Base => {}
        State::Esc => { assert((seq!['\\'] + e).skip(1) =~= e); }
        State::EscX => { let s = seq!['\\', 'x'] + e; assert(s.skip(2) =~= e); assert((seq!['\\', 'x'] + e).skip(1) =~= seq!['x']); }
        State::EscHex(h) => { let s = seq!['\\', 'x', h] + e; assert(s.skip(2) =~= seq![h] + e); lemma_conv1(h, e);
            assert((seq!['\\', 'x'] + (seq![h] + e)).skip(1) =~= seq!['x', h]); }
    }
}
/// the conversion changes nothing in a string without backslashes
proof fn lemma_identity(s: Seq<char>)
    requires !s.contains('\\'),
    ensures z3conv(s) == s,
    decreases s.len(),
{
    if s.len() > 0 { assert(s[0] != '\\'); assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != '\\' by { assert(s.contains(s[i + 1])); }
        lemma_identity(s.skip(1)); assert(z3conv(s) =~= s); }
}
'''
def build(u):
    u.add(SPEC)
    # the state enum is declared inside the function: hoisted, because contracts cannot name it there
    f = u.src(T).fn('convert_z3escapes')
    import vx
    ms = vx.find_all(f.body, 'enum State { $v }')
    if len(ms) != 1: raise vx.LostAnchor('enum State')
    u.add('#[derive(Clone, Copy)]\npub ' + vx.render(f.body[ms[0][0]:ms[0][1]]))
    reveal = ' '.join('reveal_strlit("%s");' % l for l in LITS)
    inv = r'''«
        invariant
            $st is EscHex ==> is_hex($st->EscHex_0),
            vx_it.index@ <= s@.len(),
            z3conv(s@) == $n@ + pending($st, s@.skip(vx_it.index@)),
    »'''
    u.fn(T, 'convert_z3escapes', ensures='r@ == z3conv(s@)', ret='r', rules=[
        ('desugar', 'enum State { $v }', ''),
        ('ghost', 'let mut $n:id = String :: with_capacity ( $cap ) ; let mut $st:id = State :: Base ; for $c:id in s . chars ( ) { match $st { $arms } }',
         'let mut $n:id = String :: with_capacity ( $cap ) ; let mut $st:id = State :: Base ; « proof { assert(s@.skip(0) =~= s@); } » for $c:id in «vx_it:» s . chars ( )' + inv + ''' {
           « let ghost vx_st = $st; let ghost vx_n = $n@; let ghost vx_t = s@.skip(vx_it.index@);
             proof { %s assert(vx_t[0] == $c); lemma_step(vx_st, vx_t); assert(vx_t.skip(1) =~= s@.skip(vx_it.index@ + 1)); } »
           match $st { $arms }
           « proof { assert($n@ =~= vx_n + step(vx_st, $c).0); assert($st == step(vx_st, $c).1);
               assert(vx_n + (step(vx_st, $c).0 + pending($st, s@.skip(vx_it.index@ + 1))) =~= $n@ + pending($st, s@.skip(vx_it.index@ + 1))); } »
         } « let ghost vx_n2 = $n@; let ghost vx_st2 = $st; proof { assert(s@.skip(s@.len() as int) =~= Seq::<char>::empty()); lemma_end($st); } »''' % reveal),
        ('ghost', 'match $st:id { State :: EscX => $a } $n:id }', 'match $st:id { State :: EscX => $a } « proof { assert($n@ =~= vx_n2 + tail(vx_st2)); } » $n:id }'),
    ])
