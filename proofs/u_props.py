"""Requirements on strings: merging (T01) keeps everything and invents nothing."""
from tr_common import *
F = TR + 'transpiler.rs'
def build(u):
    u.add(HEAD)
    props_types(u)
    u.add(PROPS_SPEC)
    u.add('impl KeepInts {')
    u.fn(F, 'KeepInts::merge', ensures='rank(r) == max(rank(*ki1), rank(ki2))', ret='r')
    u.add('}\nimpl StringSetProperties {')
    u.fn(F, 'StringSetProperties::new', ensures='r.req() == none_required()', ret='r',
         rules=[])
    u.fn(F, 'StringSetProperties::update_with_truths', ret='r', rules=[UNION],
         ensures='r.req() == both(old(self).req(), new_props.req()), final(self).req() == old(self).req()')
    u.add('}')
