"""Which harness runs decide which property, and how the check is described."""
EX = "exhaustive bounded enumeration of executions of the real library, each compared with an independent integer-point reference model"
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free", "-Wl,--wrap=strdup"]
API = {"extra": ["@api_table.c", "allocwrap.c", "api.cc"], "ld": WRAP}
PARTS = {
    "C31": [{"harness": "C31"}],
    "C34": [{"harness": "C34", "variant": "asan", "extra": ["argtab.c", "allocwrap.c"], "ld": WRAP + ["-Wl,--wrap=exit"]}],
    "C29": [{"harness": "C29"}],
    "C33": [{"harness": "C33"}],
    "C32": [{"harness": "C32"}],
    "C30": [{"harness": "C30"}],
    "C15": [dict(API, harness="C15", variant="asan")],
    "C14": [{"harness": "C14"}],
    "C18": [{"harness": "C18"}],
    "C27": [{"harness": "C27"}],
    "C28": [{"harness": "C28"}],
    "C25": [dict(API, harness="C25", variant="pc"), dict(API, harness="C25", variant="tsan")],
    "C26": [dict(API, harness="C26")],
    "C23": [dict(API, harness="C23")],
    "C24": [dict(API, harness="C24", variant="asan")],
    "C22": [dict(API, harness="C22")],
    "C21": [dict(API, harness="C21", variant="asan")],
    "C17": [{"harness": "C17"}],
    "C16": [{"harness": "C16"}],
    "C12": [{"harness": "C12"}],
    "C11": [{"harness": "C11"}],
    "C20": [{"harness": "C20"}],
    "C13": [{"harness": "C13"}],
    "C10": [{"harness": "C10"}],
    "C19": [{"harness": "C19"}],
    "C09": [{"harness": "C09"}],
    "C08": [{"harness": "C08"}],
    "C07": [{"harness": "C07"}],
    "C06": [{"harness": "C06"}],
    "C01": [{"harness": "C01"}],
    "C02": [{"harness": "C02"}],
    "C03": [{"harness": "C03"}],
    "C04": [{"harness": "C04"}],
    "C05": [{"harness": "C05"}],
}
# property -> (technique, level, level_note)
NOTE = "Every element of the enumerated space is executed on libisl built from the current tree; bounds in DESIGN.md and the evidence file. Trusts the reference model (mc/model.cc) and the accessors used to read results back."
MC = "model_checking"
META = {p: (EX, MC, NOTE) for p in PARTS}
API_NOTE = "Calls are generated from /repo's public headers (every exported function whose signature can be driven), arguments from fixed pools; documented preconditions are listed in harness/api.hpp:outside_contract."
META.update({k: v for k, v in {
    "C21": ("exhaustive enumeration of (function, argument combination, ownership mode) over the whole exported API under AddressSanitizer with exact allocation accounting", MC, API_NOTE),
    "C22": ("exhaustive fault-point exploration: every (call, operation limit k = 1, 2, ...) up to the number of operations the call needs, with rerun on the same context", MC, API_NOTE),
    "C23": ("exhaustive fault-point exploration: every (call, failing allocation) and every (object construction, failing allocation), with rerun of the call on the same context and exact allocation accounting", MC, API_NOTE),
    "C26": ("exhaustive enumeration of histories: every call after each of a set of context histories, and every ordered pair of calls sharing an object, each compared with the call in a fresh context", MC, API_NOTE),
    "C25": ("stateless exploration of interleavings with preemption bound 1: a call is preempted at every basic block of the library by a call in another context; all option pairs over three contexts; pairs of calls in two threads decided by happens-before", MC, API_NOTE),
    "C24": ("exhaustive enumeration of (function, argument combination, non-empty subset of NULL arguments) over the whole exported API under AddressSanitizer with allocation accounting", MC, API_NOTE),
}.items() if k in PARTS})
NOT_APPLICABLE = {}
