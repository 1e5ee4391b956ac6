"""adder: one column of the addition, for all terms (E03)."""
from ea_common import *
def build(u):
    u.add(PRE)
    from_bit(u)
    adder(u)
ADDER_ENS = '''
        forall|a: Asg| #[trigger] r.0.val(a) == (x.val(a) != (y.val(a) != carry_in.val(a))),
        forall|a: Asg| #[trigger] r.1.val(a) == ((x.val(a) && y.val(a)) || (x.val(a) && carry_in.val(a)) || (y.val(a) && carry_in.val(a)))'''
def adder(u):
    u.fn(ENC, 'adder', ret='r', ensures=ADDER_ENS, rules=[
        ('desugar', 'CoreOp :: Xor ( args ! [ $a , $b , $c ] ) . into ( )', 'CoreOp::Xor(vx_args3($a, $b, $c)).into()', '*'),
        ('desugar', 'CoreOp :: Or ( args ! [ $a , $b , $c , ] )', 'CoreOp::Or(vx_args3($a, $b, $c))', '*'),
    ])
