"""Which harness decides which property, and how many cases each tier generates.
   property -> list of dict(check, only(optional sub), quick=cases, scale(thorough multiplier), timeout(per case))"""
P = {
 "P01": [dict(check="exec", quick=300000), dict(check="scale", only="exec", quick=50, timeout=90)],
 "P02": [dict(check="determinise", quick=30000), dict(check="scale", only="determinise", quick=160, timeout=90), dict(check="scale", only="dense", quick=160, timeout=90), dict(check="scale", only="spread", quick=400, timeout=90)],
 "P03": [dict(check="minimise", quick=90000), dict(check="scale", only="minimise", quick=120, timeout=90)],
 "P04": [dict(check="transform", quick=80000), dict(check="scale", only="epsilons", quick=60, timeout=90)],
 "P05": [dict(check="trim", quick=80000), dict(check="scale", only="trim", quick=150, timeout=90)],
 "P06": [dict(check="union", quick=80000), dict(check="scale", only="unions", quick=24, timeout=90)],
 "P07": [dict(check="concat", quick=100000), dict(check="scale", only="concat", quick=150, timeout=90)],
 "P08": [dict(check="boolean", quick=80000), dict(check="scale", only="boolean", quick=60, timeout=90)],
 "P09": [dict(check="equal", quick=80000), dict(check="scale", only="equal", quick=120, timeout=90)],
 "P10": [dict(check="graph", quick=40000), dict(check="scale", only="graph", quick=120, timeout=90)],
 "P11": [dict(check="ids", quick=150000)],
 "P12": [dict(check="patgroup", quick=40000), dict(check="scale", only="group", quick=120, timeout=90)],
 "P13": [dict(check="capture", quick=60000)],
 "P14": [dict(check="fsmtext", quick=90000), dict(check="scale", only="text", quick=60, timeout=90)],
 "P15": [dict(check="codegenc", quick=1500)],
 "P16": [dict(check="codegenx", quick=1200)],
 "P17": [dict(check="vm", quick=16000)],
 "P18": [dict(check="gen", quick=80000)],
 "P19": [dict(check="shortest", quick=300000), dict(check="scale", only="shortest", quick=120, timeout=90)],
 "P20": [dict(check="required", quick=150000)],
 "P21": [dict(check="dumps", quick=35000)],
 "P23": [dict(check="pcre", quick=45000), dict(check="scale", only="alternatives", quick=80, timeout=90)],
 "P24": [dict(check="native", quick=30000), dict(check="scale", only="alternatives", quick=80, timeout=90)],
 "P25": [dict(check="simple", quick=50000)],
 "P26": [dict(check="flags", quick=40000)],
 "P27": [dict(check="parse", quick=400000)],
 "P28": [dict(check="lits", quick=250000)],
 "P29": [dict(check="strings", quick=30000), dict(check="scale", only="strings", quick=30, timeout=90)],
 "P30": [dict(check="groups", quick=1500000)],
 "P31": [dict(check="printre", quick=120000)],
 "P32": [dict(check="classes", quick=200000)],
 "P33": [dict(check="lx", quick=1200)],
 "P22": [dict(check="oom", quick=36000)],
 "P34": [dict(check="cli", quick=4500)],
 "P35": [dict(check="adt", quick=300000)],
 "P36": [dict(check="printast", quick=60000)],
 "P39": [dict(check="repro", only="same", quick=24000), dict(check="repro", only="allocator", quick=16000)],
 "P40": [dict(check="threads", quick=16000)],
 "P41": [dict(check="repro", only="freed", quick=26000)],
 "P38": [dict(check="hooks", quick=60000)],
 "P37": [dict(check="errors", quick=160000)],
 "P42": [dict(check="retest", quick=9000)],
 "P43": [dict(check="cvtpcre", quick=8000)],
}
RX = ("property-based testing: generated expressions against a reference interpretation", "")
TECH = {i: RX for i in ("P24", "P25", "P26", "P28")}
TECH["P31"] = ("property-based testing: print/parse round trip of generated expressions and automata, exact language comparison", "")
TECH["P29"] = ("property-based testing: generated string sets against naive search and an exact reference automaton", "")
TECH["P30"] = ("property-based testing: generated templates against an independent interpreter, exact-size buffers under AddressSanitizer", "")
TECH["P32"] = ("property-based testing: generated class expressions executed on every byte against written-out class definitions and PCRE2", "")
TECH["P23"] = ("differential property-based testing: generated expressions against PCRE2 and a reference interpretation", "")
TECH["P27"] = ("fuzzing: grammar-aware and byte-level generated expressions under AddressSanitizer with validity oracles on the error report", "")
TECH["P10"] = ("stateful model-based testing: generated edit histories against a plain labelled multigraph", "")
TECH["P11"] = ("stateful model-based testing: generated id histories against plain sets, leak-counting allocator", "")
TECH["P17"] = ("differential property-based testing: generated DFAs compiled to bytecode under every encoding, run against table lookup", "")
TECH["P21"] = ("round-trip property-based testing: generated automata and options, the output read back by independent JSON, dot and HTML-table readers, a VM interpreter, and gcc, and compared exactly", "")
TECH["P14"] = ("round-trip property-based testing and grammar-aware fuzzing: printed automata read back, generated and mutated descriptions against a reference reading", "")
TECH["P18"] = ("property-based testing: enumeration of words from generated automata against exhaustive enumeration of the reference automaton", "")
TECH["P19"] = ("property-based testing: shortest paths and examples of generated automata against an independent shortest-path search", "")
TECH["P20"] = ("property-based testing: required characters of generated automata against avoidance search on the reference automaton", "")
TECH["P12"] = ("property-based testing: generated pattern groups against matching each pattern on its own by reference interpretation", "")
TECH["P15"] = ("property-based testing: generated automata and options, the generated C compiled with gcc and run on a conformance suite of words between unmapped pages", "")
TECH["P16"] = ("property-based testing: generated automata and options printed in Go, Rust, LLVM IR, two assemblers, Go assembly and bash, built with the real toolchains and run on a conformance suite of words; awk run by an interpreter of its language subset", "")
TECH["P13"] = ("property-based testing: generated compositions of capturing automata against a tagged reference simulation of each word", "")
TECH["P35"] = ("stateful model-based testing: generated operation histories on each container against plain sets, maps and queues", "")
TECH["P33"] = ("property-based testing: generated lexer specifications, the generated C compiled with gcc and run on generated inputs against a reference tokeniser built by independent automaton algebra", "")
TECH["P22"] = ("property-based testing with injected allocation failures: each generated operation is rerun with every allocation failing in turn, against the outcome of the undisturbed run", "")
TECH["P34"] = ("property-based testing: generated command lines, automata and expressions run through the real programs against the library called in-process and reference automata", "")
TECH["P36"] = ("round-trip property-based testing: generated expressions and automata rendered as ABNF, tree and DOT, read back by independent readers, exact language comparison", "")
TECH["P39"] = ("stateful property-based testing: generated programs of API calls executed twice under perturbed memory, history and allocator, logs compared", "")
TECH["P40"] = ("property-based concurrency testing: generated programs in 2-4 threads under ThreadSanitizer, each thread's log compared with the same program run alone", "")
TECH["P41"] = ("stateful property-based testing: generated programs of API calls over an allocator that records every live block", "")
TECH["P38"] = ("property-based testing with injected faults: generated automata, options and hooks; every hook call and output byte a possible failure; hook arguments compared with the automaton", "")
TECH["P37"] = ("property-based testing and metamorphic relations: one generated fault put into generated well-formed text; code, span and quoted text follow from the fault; shifting, truncating and putting right relate the reports", "")
TECH["P42"] = ("random test files in the documented format, with true and false expectations and faults, run through the retest program and judged against the library", "")
TECH["P43"] = ("random inputs in the format of PCRE's tests, converted by the program and read back by the rules of the runner", "")
NA = {}
