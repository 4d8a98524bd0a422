"""What each check runs: entry points of the harness, arithmetic mode, bounds."""


def T(entry, mode="bits", reach=(), shards=1, weight=1, opts=(), replay=None, **params):
    t = {"entry": entry, "mode": mode, "reach": list(reach), "shards": shards, "weight": weight, "params": params, "opts": list(opts)}
    if replay:
        t["replay"] = replay
    return t


REAL = "f64 and f32 arithmetic is taken as arithmetic on real numbers; sin, cos, tan, exp, ln, asin, acos, atan, pow are uninterpreted functions with the axioms listed in DESIGN.md"
BITS = "f64 and f32 operations are taken bit for bit; elementary functions of libm are deterministic uninterpreted functions of their arguments' bits"
MEM = "Rust's and C++'s heap is modelled object by object with every access checked; allocation does not fail"
RAYON = "rayon's iterators run as they are on a model of its thread pool (harness/rayon-core): both sides of every join run to completion one after the other"

C19 = (("c19_jacobian_forward", "jacobian-forward"), ("c19_jacobian_reverse", "jacobian-reverse"), ("c19_products", "products"))

TASKS = {
    "C01": {
        "bounds": "one operation; all finite arguments and tangents inside the open domain (symbolic reals); operands distinct or aliased; every mix of recorded and plain operands; f64 and f32; integer exponents -3..4 at any base; tangents scaled by 2^-70 (f32: 2^-30) too, so that tiny ones are not special",
        "assumptions": [REAL, MEM],
        "quick": [
            T("c01_tape_rule", "real", ["tape-rule"]),
            T("c01_int_power", "real", ["int-power"]),
            T("c01_afloat", "real", ["afloat"]),
            T("c01_afloat32", "real", ["afloat"]),
            T("c01_tape_rule", "real", ["tape-rule"], scale=70),
            T("c01_afloat", "real", ["afloat"], scale=70),
            T("c01_afloat32", "real", ["afloat"], scale=30),
            T("c01_forms", "real", ["forms"]),
            T("c01_forms32", "real", ["forms"]),
        ],
    },
    "C02": {
        "bounds": "induction step: one operation of any kind on a state of 4 variables, operands anywhere (aliased too), all values; whole tapes: every program of 2 operations on 2 inputs, with repeated, input and intermediate dependents, all points, directions and weights; 8 fixed programs of 24 operations on 4 inputs and 6 of 300 on 6, 2 of 1000 on 6 and of 40 on 150, 4 of 40 with every variable a result",
        "assumptions": [REAL, MEM],
        "quick": [
            T("c02_step", "real", ["step"]),
            T("c02_step", "real", ["step"], scale=70),
            T("c02_int_power", "real", ["int-power"]),
            T("c02_tape", "real", ["tape"], shards=2, k=24, n=4, long=8, plain=1),
            T("c02_tape", "real", ["tape"], shards=8, weight=5, k=2),
            T("c02_tape", "real", ["tape"], k=1, n=3, plain=1, late=1),
            T("c02_tape", "real", ["tape"], k=300, n=6, long=6, plain=1, curves=5),
            T("c02_tape", "real", ["tape"], k=1000, n=6, long=2, plain=1, curves=1),
            T("c02_tape", "real", ["tape"], k=40, n=150, long=2, plain=1),
            T("c02_tape", "real", ["tape"], k=40, n=4, long=4, plain=1, wide=1),
        ],
        "thorough": [
            T("c02_tape", "real", ["tape"], shards=24, weight=6, k=2, plain=1),
            T("c02_tape", "real", ["tape"], shards=64, weight=6, k=3, set=1),
        ],
    },
    "C03": {
        "bounds": "functions of 2 inputs: all programs of 2 operations of any kind, dependents repeated, inputs, intermediates and constants; all points inside the open domain; 6 fixed programs of 20 operations on 4 inputs, 4 of 300 on 6, 3 of 60 on 40, 2 of 8 on 130, 3 of 40 and 60 with all variables as results (43 and 100); 3 operations from a reduced set and 3 inputs in the thorough tier",
        "assumptions": [REAL, MEM, RAYON],
        "quick": [
            T("c03_jacobian", "real", ["jacobian"], shards=2, k=20, n=4, long=6, plain=1),
            T("c03_jacobian", "real", ["jacobian"], k=300, n=6, long=4, plain=1, set=1, curves=8),
            T("c03_jacobian", "real", ["jacobian"], k=60, n=40, long=3, plain=1, set=1),
            T("c03_jacobian", "real", ["jacobian"], k=8, n=130, long=2, plain=1, set=1),
            T("c03_jacobian", "real", ["jacobian"], k=40, n=3, long=2, plain=1, set=1, wide=1),
            T("c03_jacobian", "real", ["jacobian"], k=60, n=40, long=1, plain=1, set=1, wide=1),
            T("c03_jacobian", "real", ["jacobian"], shards=32, weight=5, k=2),
            T("c03_jacobian", "real", ["jacobian"], shards=4, weight=3, k=1, n=3, plain=1),
            T("c03_jacobian", "real", ["jacobian"], shards=2, weight=2, k=1, n=3, late=1),
        ],
        "thorough": [
            T("c03_jacobian", "real", ["jacobian"], shards=64, weight=6, k=2, plain=1),
            T("c03_jacobian", "real", ["jacobian"], shards=128, weight=6, k=3, set=1),
        ],
    },
    "C04": {
        "bounds": "all programs of 2 operations of any kind on 2 inputs (1 operation with plain operands; 3 of a reduced set in the thorough tier); 6 fixed programs of 20 operations and 8 of 300, on up to 40 inputs, 2 of 1200, 2 on 300 inputs; recording point and two replay points any bit patterns, then back to the first; 40 visits, some of them to earlier points; 12 rounds of a replay, two forward and two reverse sweeps; replays that move a single one of 3, 20 and 100 inputs",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c04_replay", "bits", ["replay"], shards=16, weight=3, k=2),
            T("c04_replay", "bits", ["replay"], k=1, plain=1),
            T("c04_replay", "bits", ["replay"], k=1, n=3, late=1),
            T("c04_replay", "bits", ["replay"], shards=2, k=20, n=3, long=6, plain=1),
            T("c04_replay", "bits", ["replay"], k=300, n=3, long=4, plain=1, set=4, curves=100, kinks=20),
            T("c04_replay", "bits", ["replay"], k=300, n=40, long=4, plain=1, set=4, curves=60),
            T("c04_replay", "bits", ["replay"], k=1200, n=3, long=2, plain=1, set=4, curves=300, kinks=50),
            T("c04_replay", "bits", ["replay"], k=30, n=300, long=2, plain=1, set=4, curves=20),
            T("c04_replay", "bits", ["replay"], k=12, n=3, long=4, plain=1, set=3, curves=100, visits=40),
            T("c04_replay", "bits", ["replay"], k=1, n=3, single=1),
            T("c04_replay", "bits", ["replay"], k=120, n=100, long=2, plain=1, set=4, curves=10, single=1),
            T("c04_replay", "bits", ["replay"], k=300, n=20, long=2, plain=1, set=4, curves=60, kinks=10, single=1, visits=6),
            T("c04_derivative", "bits", ["derivative"], k=12, long=4, plain=1, rounds=12),
            T("c04_derivative", "bits", ["derivative"], k=300, long=4, plain=1, set=0, curves=100),
            T("c04_derivative", "bits", ["derivative"], shards=2, k=20, long=6, plain=1),
            T("c04_derivative", "bits", ["derivative"], k=1, plain=1),
            T("c04_derivative", "bits", ["derivative"], shards=16, weight=4, k=2, set=1, plain=0),
        ],
        "thorough": [
            T("c04_replay", "bits", ["replay"], shards=32, weight=5, k=2, plain=1),
            T("c04_replay", "bits", ["replay"], shards=64, weight=5, k=3, set=1),
            T("c04_derivative", "bits", ["derivative"], shards=64, weight=6, k=2),
        ],
    },
    "C05": {
        "bounds": "histories of 2 actions of any kind and 3 actions with a reduced set of operations (thorough: 3 of any kind, 4 reduced), 16 fixed histories of 30 actions, 8 of 300, one of 1200; registering, marking as dependent, recorded and plain operations on any earlier variables; all values; f64 and f32; vectors of up to 3, 20 and 70 (slices up to 90); one operator in each of its operand forms (variable, reference, plain number) with any plain number, 1 and 0 included",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c05_history", "bits", ["history"], shards=2, weight=2, k=2),
            T("c05_history", "bits", ["history"], shards=16, weight=3, k=3, ops=1),
            T("c05_history32", "bits", ["history"], shards=2, weight=2, k=2),
            T("c05_history", "bits", ["history"], shards=2, k=30, long=8),
            T("c05_history32", "bits", ["history"], shards=2, k=30, long=8, salt=1),
            T("c05_history", "bits", ["history"], k=300, long=4, ops=2),
            T("c05_history", "bits", ["history"], k=1200, long=1, ops=2, salt=2),
            T("c05_history32", "bits", ["history"], k=300, long=4, ops=2, salt=1),
            T("c05_vectors", "bits", ["vectors"]),
            T("c05_reregister", "bits", ["reregister"]),
            T("c05_record", "bits", ["record"]),
            T("c05_forms", "bits", ["forms"], k=2),
            T("c05_forms32", "bits", ["forms"], k=2),
        ],
        "thorough": [
            T("c05_history", "bits", ["history"], shards=64, weight=6, k=3),
            T("c05_history", "bits", ["history"], shards=64, weight=6, k=4, ops=1),
        ],
    },
    "C06": {
        "bounds": "two live contexts and histories of 3 actions on them (thorough 4), 8 fixed ones of 16 actions, 4 of 120; every operation mixing two contexts, and both contexts as the refusal left them; contexts dropped before or after others are created; all values; up to 4 live handles (thorough 5); up to 300 contexts alive in a fixed sequence of creating, recording on and dropping them; a variable registered anew in another context",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c06_isolation", "bits", ["isolation"], shards=8, weight=3, k=3),
            T("c06_isolation", "bits", ["isolation"], k=16, long=8),
            T("c06_isolation", "bits", ["isolation"], k=120, long=4),
            T("c06_mixing", "bits", ["mixing", "refused", "panic:C06.mixing-refused"]),
            T("c06_moved", "bits", ["moved", "panic:C06.mixing-refused"]),
            T("c06_tape_snapshot", "bits", ["snapshot"]),
            T("c06_tape_replay", "bits", ["replay"]),
            T("c06_outlive", "bits", ["outlive"]),
            T("c06_lookup", "bits", ["lookup"], weight=2, k=4),
            T("c06_many", "bits", ["many"], n=40),
            T("c06_many", "bits", ["many"], n=300, rounds=2, stride=2),
            T("c06_many", "bits", ["many"], n=80, rounds=8, stride=4),
        ],
        "thorough": [
            T("c06_isolation", "bits", ["isolation"], shards=32, weight=5, k=4),
            T("c06_lookup", "bits", ["lookup"], weight=4, k=5),
        ],
    },
    "C07": {
        "bounds": "one operation, function, comparison, conversion or constructor of AFloat; every bit pattern of its arguments (NaN, infinities, signed zeros, subnormals included); f64 and f32; integer exponents any i32; parsing of a fixed list of texts",
        "assumptions": [BITS, MEM],
        "quick": [T(e + s, "bits", [l]) for e, l in (("c07_operators", "operators"), ("c07_functions", "functions"), ("c07_compare", "compare"), ("c07_classify", "classify"),
                                                      ("c07_constants", "constants"), ("c07_parse", "parse"), ("c07_to_primitive", "to-primitive"), ("c07_from_primitive", "from-primitive")) for s in ("", "32")]
        + [T("c07_cast", "bits", ["cast"]), T("c07_access", "bits", ["access"])],
    },
    "C08": {
        "bounds": "one derived function on one or two recorded or plain arguments; all finite arguments and tangents inside the open domain (symbolic reals), both branches of max, min, abs_sub; f64 and f32; powi with any i32 exponent; negation, recip and sin_cos of any bit pattern; the recorded tape replayed and swept at any other point",
        "assumptions": [REAL, MEM],
        "quick": [
            T("c08_derived", "real", ["derived"]),
            T("c08_derived32", "real", ["derived"]),
            T("c08_tape", "real", ["tape"]),
            T("c08_powi", "real", ["powi"]),
            T("c08_powi32", "real", ["powi"]),
            T("c08_exact", "bits", ["exact"]),
            T("c08_exact32", "bits", ["exact"]),
            T("c08_cbrt_negative", "bits", ["cbrt"]),
        ],
    },
    "C09": {
        "bounds": "all programs of 2 operations of any kind on 2 inputs (1 operation with plain operands; 3 of a reduced set in the thorough tier); 6 fixed programs of 10 operations on 4 inputs, 8 of 300 on up to 40, 2 of 1200 on 4, 2 of 30 on 300; all points and directions, any bit patterns",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c09_program", "bits", ["program"], shards=8, weight=3, k=2),
            T("c09_program", "bits", ["program"], shards=2, k=10, n=4, long=6, plain=1),
            T("c09_program", "bits", ["program"], k=300, n=4, long=4, plain=1, set=4, curves=120, kinks=20),
            T("c09_program", "bits", ["program"], k=300, n=4, long=2, plain=1, set=3, curves=80, kinks=20),
            T("c09_program", "bits", ["program"], k=300, n=40, long=4, plain=1, set=4, curves=60),
            T("c09_program", "bits", ["program"], k=1200, n=4, long=2, plain=1, set=4, curves=300, kinks=50),
            T("c09_program", "bits", ["program"], k=30, n=300, long=2, plain=1, set=4, curves=20),
            T("c09_program", "bits", ["program"], k=1, plain=1),
            T("c09_program", "bits", ["program"], k=1, n=3, late=1),
        ],
        "thorough": [
            T("c09_program", "bits", ["program"], shards=32, weight=5, k=2, plain=1),
            T("c09_program", "bits", ["program"], shards=64, weight=5, k=3, set=1),
        ],
    },
    "C10": {
        "bounds": "the general piecewise-linear function with 1 to 3 inputs, switches and results and any symbolic coefficients, at any point and any increment, also with 6 switches, 5 inputs or 5 results, and of up to 12 by 9 by 9 in every order of the three dimensions, 40 switches, 70 inputs or results; entries and increments scaled by 2^-90 too; fixed programs of 14 and 20 operations with up to 6 switches and of 200 operations, all linear or abs but 2; every program of 2 operations of all kinds and of 3 linear and abs operations",
        "assumptions": [REAL, MEM, RAYON],
        "quick": [
            T("c10_family", "real", ["family"], weight=3, hi=3),
            T("c10_family", "real", ["family"], weight=2, s=6, n=2, m=1),
            T("c10_family", "real", ["family"], weight=2, s=1, n=5, m=2),
            T("c10_family", "real", ["family"], weight=2, s=2, n=1, m=5),
            T("c10_family", "real", ["family"], weight=2, s=12, n=6, m=6),
            T("c10_family", "real", ["family"], s=7, n=7, m=7),
            T("c10_family", "real", ["family"], s=5, n=1, m=5),
            T("c10_family", "real", ["family"], s=4, n=9, m=9),
            T("c10_family", "real", ["family"], s=6, n=6, m=2),
            T("c10_family", "real", ["family"], s=2, n=70, m=2),
            T("c10_family", "real", ["family"], s=2, n=2, m=70),
            T("c10_family", "real", ["family"], weight=4, s=40, n=1, m=1),
            T("c10_program", "real", ["program"], k=200, long=6, set=2),
            T("c10_program", "real", ["program"], k=200, long=6, set=4, curves=2),
            T("c10_program", "real", ["program"], shards=2, k=20, long=8, kinks=6),
            T("c10_program", "real", ["program"], shards=2, k=14, long=8, set=4),
            T("c10_program", "real", ["program"], shards=8, weight=3, k=3, set=2),
            T("c10_program", "real", ["program"], shards=8, weight=3, k=2, set=3, plain=1),
        ],
        "thorough": [
            T("c10_family", "real", ["family"], weight=4, hi=4),
            T("c10_program", "real", ["program"], shards=64, weight=6, k=4, set=2),
            T("c10_program", "real", ["program"], shards=64, weight=6, k=3, set=3),
        ],
    },
    "C11": {
        "bounds": "the general piecewise-linear function with 1 to 3 inputs, switches and results and any symbolic coefficients: all four matrices, rows, columns, left and right products with any matrices of up to 2 columns or rows; also 4 switches, 4 inputs or 5 results with factors of 3 and 4 columns or rows, 9 inputs or results with 12, 10 switches by 12 inputs by 11 results, 35 switches, 70 inputs or results; entries scaled by 2^-90 too; fixed programs of 12, 14 and 200 operations; every program of 2 linear and abs operations; wrong sizes refused",
        "assumptions": [REAL, MEM, RAYON],
        "quick": [
            T("c11_family", "real", ["family"], weight=2),
            T("c11_family", "real", ["family"], weight=2, cols=3, s=4, n=2, m=1),
            T("c11_family", "real", ["family"], weight=2, cols=3, s=2, n=4, m=2),
            T("c11_family", "real", ["family"], weight=2, cols=4, s=1, n=2, m=5),
            T("c11_family", "real", ["family"], weight=2, cols=2, s=10, n=12, m=11),
            T("c11_family", "real", ["family"], weight=2, cols=12, s=3, n=9, m=2),
            T("c11_family", "real", ["family"], weight=2, cols=12, s=2, n=2, m=9),
            T("c11_family", "real", ["family"], cols=5, s=5, n=5, m=5),
            T("c11_family", "real", ["family"], weight=3, cols=2, s=2, n=70, m=2),
            T("c11_family", "real", ["family"], weight=3, cols=2, s=2, n=1, m=70),
            T("c11_family", "real", ["family"], weight=4, cols=2, s=35, n=1, m=1),
            T("c11_program", "real", ["program"], k=200, long=4, set=2),
            T("c11_program", "real", ["program"], shards=2, weight=2, k=14, long=6, kinks=5),
            T("c11_program", "real", ["program"], shards=2, weight=2, k=12, long=6, set=4),
            T("c11_program", "real", ["program"], shards=4, weight=3, k=2),
            T("c11_mismatch", "real", ["mismatch", "panic:C11.wrong-size-refused"]),
        ],
        "thorough": [
            T("c11_family", "real", ["family"], weight=4, hi=4),
            T("c11_program", "real", ["program"], shards=64, weight=6, k=3),
        ],
    },
    "C12": {
        "bounds": "the general piecewise-linear function with one switch and any symbolic coefficients, with up to 3 switches, inputs and results (and 5, 6 and 9 switches, 12 inputs and results) and fixed coefficients; switches of switches 6 deep (4 with symbolic thresholds; thorough: 8 and 5); fixed programs of 10 to 60 operations with up to 6 switches; all points, every pattern of ties; every program of 2 linear and abs operations (thorough: 3); tie patterns of up to 10 switches, 140 ties with one of 9 bits set; switches that are zero of either sign, as bits",
        "assumptions": [REAL, MEM, RAYON],
        "quick": [
            T("c12_family", "real", ["family"], hi=1),
            T("c12_family", "real", ["family"], weight=2, hi=2, salt=1),
            T("c12_family", "real", ["family"], shards=4, weight=4, hi=3, salt=2),
            T("c12_family", "real", ["family"], weight=4, salt=3, s=5, n=2, m=2),
            T("c12_family", "real", ["family"], weight=4, salt=3, s=6, n=1, m=1),
            T("c12_program", "real", ["program"], shards=4, weight=3, k=2),
            T("c12_program", "real", ["program"], shards=2, weight=2, k=12, long=6, kinks=4),
            T("c12_program", "real", ["program"], shards=2, k=10, long=6, set=4),
            T("c12_program", "real", ["program"], shards=2, weight=2, k=20, long=4, kinks=6),
            T("c12_bits", "real", ["bits"], weight=2, s=10),
            T("c12_many", "real", ["many"], s=140),
            T("c12_family", "real", ["family"], weight=2, salt=3, s=2, n=12, m=12),
            T("c12_family", "real", ["family"], weight=2, salt=3, s=9, n=1, m=1),
            T("c12_program", "real", ["program"], k=60, long=4, set=2),
            T("c12_zero_signs", "bits", ["zero-signs"], shards=4),
            T("c12_deep", "real", ["deep"], s=5),
            T("c12_deep", "real", ["deep"], weight=2, s=6, n=2, m=2, salt=1),
            T("c12_deep", "real", ["deep"], weight=2, s=4, sym=1),
        ],
        "thorough": [
            T("c12_family", "real", ["family"], shards=16, weight=6, hi=2),
            T("c12_family", "real", ["family"], shards=8, weight=6, hi=3, salt=5),
            T("c12_program", "real", ["program"], shards=64, weight=6, k=3),
            T("c12_bits", "real", ["bits"], weight=2, s=14),
            T("c12_deep", "real", ["deep"], weight=4, s=8),
            T("c12_deep", "real", ["deep"], weight=4, s=5, sym=1),
        ],
    },
    "C13": {
        "bounds": "chains of up to 5 links (4 with checkpoints), square and not, of 30 (16) links two or three of which have a switch; successors of up to 12 columns and 9 rows, zero ones too; each the general piecewise-linear function with one switch and any symbolic coefficients (one link with 2 switches in the thorough tier); all starting points; checkpoint counts from 2 to the number of links + 1 and the default",
        "assumptions": [REAL, MEM, RAYON],
        "quick": [
            T("c13_next", "real", ["next"], hi=1),
            T("c13_next", "real", ["next"], weight=2, hi=2, salt=1),
            T("c13_next", "real", ["next"], weight=4, salt=3, fixed=1, s=4, n=2, m=3),
            T("c13_next", "real", ["next"], weight=4, salt=3, fixed=1, s=3, n=4, m=3),
            T("c13_next", "real", ["next"], salt=3, fixed=1, s=2, n=2, m=2, rows=3),
            T("c13_next", "real", ["next"], weight=3, salt=3, fixed=1, s=2, n=8, m=12, rows=9),
            T("c13_chain", "real", ["chain"], weight=3, links=3),
            T("c13_chain", "real", ["chain"], weight=3, links=3, widths=1),
            T("c13_chain", "real", ["chain"], shards=6, weight=4, k=5),
            T("c13_chain", "real", ["chain"], shards=6, weight=4, k=5, widths=1),
            T("c13_chain", "real", ["chain"], weight=2, k=30, every=40, widths=1),
            T("c13_checkpoints", "real", ["checkpoints"], weight=2, k=16, every=20),
            T("c13_checkpoints", "real", ["checkpoints"], shards=3, weight=4, k=4, s=1),
            T("c13_checkpoints", "real", ["checkpoints"], shards=3, weight=4, k=4, s=1, widths=1),
            T("c13_checkpoints", "real", ["checkpoints"], weight=2, links=2, s=1),
            T("c13_checkpoints", "real", ["checkpoints"], weight=4, links=3, s=1),
        ],
        "thorough": [
            T("c13_next", "real", ["next"], shards=8, weight=6, hi=2),
            T("c13_chain", "real", ["chain"], shards=8, weight=6, links=4),
            T("c13_checkpoints", "real", ["checkpoints"], shards=8, weight=6, links=4, s=1),
        ],
    },
    "C14": {
        "bounds": "every sequence of up to 130 steps with every checkpoint count up to 12 (10 below 41 steps), of 20 to 26 steps with up to 40, of 254 to 260 with up to 5 (thorough: up to 300 and 12); uninterpreted step function on symbolic states; 10 lengths from 63 to 3003 with 10 counts from 2 to 200, the last 12 states only above 255",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c14_reversal", "bits", ["reversal"], shards=4, weight=3, n=40, c=10),
            T("c14_reversal", "bits", ["reversal"], shards=8, weight=3, lo=41, n=130, c=12),
            T("c14_reversal", "bits", ["reversal"], lo=254, n=260, c=5),
            T("c14_reversal", "bits", ["reversal"], lo=20, n=26, c=40),
            T("c14_floats", "bits", ["floats"]),
            T("c14_too_few", "bits", ["panic:C14.too-few-checkpoints"]),
            T("c14_long", "bits", ["long"], weight=2, n=6, tail=300),
            T("c14_long", "bits", ["long"], weight=2, n=10, tail=12),
        ],
        "thorough": [
            T("c14_reversal", "bits", ["reversal"], shards=16, weight=5, lo=131, n=300, c=12),
            T("c14_long", "bits", ["long"], weight=5, n=10, tail=60),
        ],
    },
    "C15": {
        "bounds": "function objects with up to 34 inputs and 99 results, any values; chains of up to 5 links nested 2 deep and of up to 3 links nested 4 deep, any grouping; 12 groupings of 40 links nested 6 deep, 6 of 60 nested 2 deep in pairs; every mismatch of sizes up to 3; literal macros with fixed shapes and symbolic entries",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c15_objects", "bits", ["objects"]),
            T("c15_mismatch", "bits", ["accepted", "panic:C15.mismatch-refused"]),
            T("c15_tape_mismatch", "bits", ["panic:C15.mismatch-refused"]),
            T("c15_chain", "bits", ["chain"], weight=2, links=5, depth=2),
            T("c15_chain", "bits", ["chain"], weight=2, links=3, depth=4),
            T("c15_chain", "bits", ["chain"], links=40, depth=6, long=12),
            T("c15_chain", "bits", ["chain"], links=60, depth=2, group=2, long=6),
            T("c15_chain_mismatch", "bits", ["accepted", "panic:C15.misfit-refused"]),
            T("c15_nth_outside", "bits", ["panic:C15.no-such-link"]),
            T("c15_literals", "bits", ["literals"]),
        ],
        "thorough": [T("c15_chain", "bits", ["chain"], shards=8, weight=5, links=5, depth=3)],
    },
    "C16": {
        "bounds": "two threads, every interleaving of their atomic and lock operations with at most 2 preemptions (thorough: 3); each thread records up to 2 operations, or takes a tape, or creates, looks up and drops contexts, or registers variables; two threads on two contexts in opposite orders; two threads of 40 operations each with one preemption (4 with two); three threads, one of them taking tapes and looking at the context, with one preemption (thorough: two)",
        "assumptions": [BITS, MEM, "interleavings are sequentially consistent and switch threads at atomic, lock and thread operations only"],
        "quick": [
            T("c16_record", "bits", ["record"], shards=4, weight=3, opts=["--preempt", "2"], replay="engine"),
            T("c16_snapshot", "bits", ["snapshot"], opts=["--preempt", "2"], replay="engine"),
            T("c16_lifecycle", "bits", ["lifecycle"], weight=2, opts=["--preempt", "2"], replay="engine"),
            T("c16_register", "bits", ["register"], opts=["--preempt", "2"], replay="engine"),
            T("c16_three", "bits", ["three"], weight=2, opts=["--preempt", "1"], replay="engine"),
            T("c16_crossing", "bits", ["crossing"], weight=3, opts=["--preempt", "2"], replay="engine"),
            T("c16_many", "bits", ["many"], n=40, opts=["--preempt", "1"], replay="engine"),
            T("c16_many", "bits", ["many"], n=4, opts=["--preempt", "2"], replay="engine"),
        ],
        "thorough": [
            T("c16_record", "bits", ["record"], shards=16, weight=6, opts=["--preempt", "3"], replay="engine"),
            T("c16_snapshot", "bits", ["snapshot"], weight=5, opts=["--preempt", "4"], replay="engine"),
            T("c16_lifecycle", "bits", ["lifecycle"], weight=6, opts=["--preempt", "3"], replay="engine"),
            T("c16_register", "bits", ["register"], weight=5, opts=["--preempt", "4"], replay="engine"),
            T("c16_three", "bits", ["three"], shards=12, weight=6, opts=["--preempt", "2"], replay="engine"),
            T("c16_crossing", "bits", ["crossing"], weight=6, opts=["--preempt", "3"], replay="engine"),
            T("c16_many", "bits", ["many"], n=12, weight=5, opts=["--preempt", "2"], replay="engine"),
        ],
    },
    "C17": {
        "bounds": "every C function and every C++ operator and function of the interface on arguments with any bit patterns, recorded, plain and aliased; programs of 2 operations (thorough: 3), and 16 fixed programs of 30 and 8 of 300, through the C++ interface against the same program through the Rust interface",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c17_c_binary", "bits", ["c-binary"]),
            T("c17_c_unary", "bits", ["c-unary"]),
            T("c17_c_objects", "bits", ["c-objects"]),
            T("c17_binary", "bits", ["binary"]),
            T("c17_unary", "bits", ["unary"]),
            T("c17_scalar", "bits", ["scalar"]),
            T("c17_register", "bits", ["register"]),
            T("c17_program", "bits", ["program"], shards=8, weight=3, k=2),
            T("c17_program", "bits", ["program"], shards=2, k=30, long=16),
            T("c17_program", "bits", ["program"], k=300, long=8),
        ],
        "thorough": [T("c17_program", "bits", ["program"], shards=64, weight=6, k=3)],
    },
    "C18": {
        "bounds": "every sequence of 4 actions on 3 C++ variables (create, copy, assign, self-assign, destroy, operate, return by value) and of 4 actions on 2 contexts (thorough: 5 and 6), fixed sequences of 30, 60 and 300; a vector of variables grown, moved and destroyed; every access of the heap checked, everything freed exactly once",
        "assumptions": [BITS, MEM],
        "quick": [
            T("c18_variables", "bits", ["variables"], shards=8, weight=3, slots=3, k=4),
            T("c18_variables", "bits", ["variables"], shards=2, weight=2, slots=3, k=30, long=80),
            T("c18_variables", "bits", ["variables"], shards=2, weight=2, slots=4, k=60, long=80, salt=1),
            T("c18_contexts", "bits", ["contexts"], k=4),
            T("c18_contexts", "bits", ["contexts"], k=30, long=60),
            T("c18_variables", "bits", ["variables"], slots=4, k=300, long=20),
            T("c18_contexts", "bits", ["contexts"], k=300, long=10),
            T("c18_vector", "bits", ["vector"]),
        ],
        "thorough": [
            T("c18_variables", "bits", ["variables"], shards=64, weight=6, slots=3, k=5),
            T("c18_contexts", "bits", ["contexts"], shards=8, weight=5, k=6),
        ],
    },
    "C19": {
        "bounds": "4 columns or rows (thorough: 5): every order in which the two sides of each join run and are stolen, for 1, 2 and 8 worker threads; 3 columns or rows with the sides as threads interleaved with at most 2 preemptions; 9 columns or rows split down to single ones in order, and 9, 40 and 130 in fixed orders (24, 12 and 3); any values",
        "assumptions": [BITS, MEM, "rayon's iterators run as they are; its thread pool is replaced by a model (harness/rayon-core) in which the two sides of a join run one after the other in either order, either of them counting as stolen, or as two interleaved threads"],
        "quick": [T(e, "bits", [l], weight=2, n=4, par=1, threads=t) for e, l in C19 for t in (1, 2, 8)]
        + [T(e, "bits", [l], n=3, par=2, threads=8, opts=["--preempt", "2"], replay="engine") for e, l in C19]
        + [T(e, "bits", [l], n=9, other=3, threads=16) for e, l in C19]
        + [T(e, "bits", [l], n=9, other=3, threads=8, par=3, long=24) for e, l in C19]
        + [T(e, "bits", [l], n=40, other=5, threads=8, par=3, long=12) for e, l in C19]
        + [T(e, "bits", [l], n=130, other=3, threads=8, par=3, long=3) for e, l in C19],
        "thorough": [T(e, "bits", [l], weight=5, n=5, par=1, threads=t) for e, l in C19 for t in (1, 2, 8)]
        + [T(e, "bits", [l], n=4, weight=4, par=2, threads=8, opts=["--preempt", "3"], replay="engine") for e, l in C19],
    },
}
