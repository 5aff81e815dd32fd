from mkseed import seed
CHK = """
def check(src, top, cases, *args):
    i = vs.sim(src, top, *args)
    for ins, want in cases:
        got = vs.run(i, **ins)
        if got != want: sys.exit(f'{top} {ins}: got {got} want {want}')
"""
seed('c01-named-enum-pattern', 'C01', 'a pattern on an enum variant or struct with named arguments written in another order than the declaration',
  'binds/compares the wrong members of the variant',
  [('spade-ast-lowering/src/lib.rs', 'patterns.sort_by_cached_key(|arg| p.params.arg_index(&arg.target).unwrap());',
    'patterns.sort_by_cached_key(|arg| arg.target.inner.as_str().to_string());')],
  CHK + """
check('''enum E { A{zz: uint<8>, b: uint<8>}, B }
fn top(e: E) -> uint<8> { match e { E::A$(b: 3, zz: y) => y, E::A$(zz: _, b) => b, E::B => 0 } }''', 'top', [(dict(e=5 << 8 | 3), 5), (dict(e=7 << 8 | 9), 9), (dict(e=1 << 16), 0)])
""")
seed('c02-valid-mem', 'C02', 'a memory element type one bit wide and more than one write port',
  'later write ports take their data from the wrong bit of the write port array',
  [('spade-mir/src/codegen/mod.rs', 'format!("{}[{}]", op_names[1], &write_value_start),', 'format!("{}[{}]", op_names[1], port),')],
  """
src = '''use std::mem::clocked_memory; use std::mem::read_memory;
entity top(clk: clock, we: bool, a: uint<2>, d: bool, ra: uint<2>) -> bool {
  let m: Memory<bool, 4> = inst clocked_memory(clk, [(false, 0, false), (we, a, d)]);
  inst read_memory(m, ra)
}'''
i = vs.sim(src, 'top')
for k in range(4):
    vs.run(i, we=1, a=k, d=k & 1, ra=0); i.tick('clk_i')
for k in range(4):
    if vs.run(i, we=0, a=0, d=0, ra=k) != k & 1: sys.exit(f'address {k} is wrong')
""")
seed('c03-valid-downstream', 'C03', 'a pipeline with conditions on two non-adjacent stages, the downstream one stalling while the upstream one is enabled, and stage.valid read between them',
  'a stage is marked invalid while it is in fact held',
  [('spade-hir-lowering/src/pipelines.rs', 'let downstream_enable = ready_signals.get(i + 1).cloned().flatten().or_const_true();',
    'let downstream_enable = ready_signals.last().cloned().flatten().or_const_true();')],
  """
src = '''pipeline(3) top(clk: clock, e: bool, f: bool, a: uint<4>) -> (bool, bool, bool) {
  reg[e];
  let v1 = stage.valid;
  reg;
  let v2 = stage.valid;
  reg[stage(-2).f];
  (stage(-2).v1, stage(-1).v2, stage.valid)
}'''
i = vs.sim(src, 'top')
v = [1, 0, 0, 0]
import random
random.seed(3)
for k in range(200):
    e, f = random.randint(0, 1), random.randint(0, 1)
    got = vs.run(i, e=e, f=f, a=0)
    if k > 8 and got != (v[1] << 2 | v[2] << 1 | v[3]): sys.exit(f'cycle {k}: {got:03b} want {v}')
    r = [0, 0, 0, 1]
    r[2] = f; r[1] = f; r[0] = e & f
    c = [e, 1, f]
    n = [1] + [((v[s] & c[s]) if r[s + 1] else v[s + 1]) for s in range(3)]
    v = n; i.tick('clk_i')
""")
