"""Which specification decides which property, and what it rests on."""
import build

TRUST_ENGINE = ["rustc nightly (type checking, MIR construction, constant evaluation)", "driver/src/main.rs (MIR to JSON)",
                "engine/interp.py (value-provenance interpretation of MIR)", "engine/models.py (semantics of the std/serde/percent-encoding functions used)", "engine/specs_client.py (the property's specification)"]
TRUST_TYPES = ["rustc nightly (type checking)", "the witness source under witness/"]
ASSUME_LIB = "third-party crates (reqwest, serde, serde_json, serde_urlencoded, percent-encoding, url, http, bytes) and std behave as documented; their functions are opaque terms or modelled"

_client = None


def client():
    global _client
    import specs_client
    return specs_client.Client(build.client_facts())


def _c(name):
    def f(ctx, rep):
        import specs_client
        getattr(specs_client, name)(ctx, rep)
    return f


RULE = "every outcome of the analysed functions over symbolic arguments must equal the specification's decision tree; an obligation is one clause of the property at one construct"

PROPS = {}
FLOORS = dict(C01=100, C02=15, C03=5, C04=14, C05=4, C06=36, C07=36, C08=1, C09=6, C10=1, C11=2, C12=1, C13=9, C14=9, C15=72, C16=36, C17=3, C18=1, C19=60, C20=15, C21=3)
for _p, _n in FLOORS.items():
    PROPS[_p] = dict(context=client, spec=_c(_p.lower()), floor=_n, level="proof", rule=RULE, trusted=TRUST_ENGINE, assumptions=[ASSUME_LIB])
TECH = "value-provenance dataflow over MIR (path-sensitive, loop-summarising), outcomes compared with a specification decision tree"
NOTE = ("Holds for every argument, response and collaborator failure, relative to the trusted base: rustc's MIR, the MIR-to-JSON driver, the interpreter in engine/, "
        "its models of std/serde/percent-encoding functions, and the property's specification. Third-party crates are opaque or modelled. Nothing of /repo is executed. "
        "Code the analysis cannot follow is reported as a violation ('not established'), never passed.")
for _p in PROPS.values():
    _p.update(technique=TECH, note=NOTE)
PROPS["C20"].update(technique="type-level witnesses: auto-trait and trait-bound obligations compiled against the runtime, with must-fail controls",
                    note="rustc's type checker decides each obligation for all type arguments; a control crate shows that the obligations can fail. Trusted: rustc and the witness source.")
PROPS["C21"].update(technique="constant-value dataflow on the embedded source plus type-checking that source as a stand-alone module",
                    note="The embedded constant is read from the compiler's constant evaluation and compared with the compiled files; rustc type-checks it with only a generated crate's dependencies.")
PROPS["C20"].update(trusted=TRUST_TYPES, rule="one function per obligation in witness/threads must type-check against the current runtime; control obligations must be rejected")
PROPS["C21"].update(rule="code() must be constant and equal to the text of every file the runtime is compiled from; that text must type-check as a module of a crate with only the generated crate's dependencies")


# ---------------------------------------------------------------- the generator crates
TRUST_GEN = TRUST_ENGINE[:-1] + ["stubs/ (type-level stand-ins for crates that are not installed: openapiv3, schemars, typify, …)",
                                 "engine/quote_models.py (what the quote macros build)", "engine/specs_gen.py (the property's specification)"]
ASSUME_GEN = ["third-party crates (openapiv3, typify, schemars, syn, quote, indexmap, serde, clap) and std behave as documented; their functions are opaque terms or modelled",
              "generated code is judged as token text over symbolic documents; typify's naming and type generation are opaque"]
NOTE_GEN = ("Holds for every document and every generation setting, relative to the trusted base: rustc's MIR, the driver, the interpreter and its models, the stand-ins for uninstalled crates, "
            "and the property's specification over generated token text. Nothing of /repo is executed. Code the analysis cannot follow is reported as a violation ('not established'), never passed.")
_gen = {}


def gen(package="progenitor-impl"):
    def f():
        import specs_gen
        if package not in _gen:
            _gen[package] = specs_gen.Gen(build.gen_facts(package))
        return _gen[package]
    return f


def suite():
    """the generator with its two front ends"""
    import specs_gen6
    crate = lambda p: specs_gen6.Gen(build.gen_facts(p), p.replace("-", "_"))
    return specs_gen6.Suite(gen()(), crate("progenitor-macro"), crate("cargo-progenitor"))


def _g(name):
    def f(ctx, rep):
        import specs_gen, specs_gen2, specs_gen3, specs_gen4, specs_gen5, specs_gen6, specs_gen7, specs_gen8
        next(f for m in (specs_gen, specs_gen2, specs_gen3, specs_gen4, specs_gen5, specs_gen6, specs_gen7, specs_gen8) if (f := getattr(m, name, None)))(ctx, rep)
    return f


GEN_FLOORS = dict(G01=12, G02=35, G03=13, G04=20, G05=60, G06=40, G07=25, G08=20, G09=35, G10=30, G11=18, G12=15, G13=140, G14=22, G15=10, G16=14, G17=18, G18=22, G19=20, G20=20)
for _p, _n in GEN_FLOORS.items():
    PROPS[_p] = dict(context=suite if _p in ("G18", "G19") else gen(), spec=_g(_p.lower()), floor=_n, level="proof", rule="every outcome of the generator's functions over a symbolic document must produce the tokens the specification requires; an obligation is one clause of the property at one construct",
                     trusted=TRUST_GEN, assumptions=ASSUME_GEN, technique=TECH.replace("outcomes compared with a specification decision tree", "generated token text over symbolic documents compared with a specification"), note=NOTE_GEN)
