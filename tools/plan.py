"""What each check runs: models of the specification, and sessions of the real code."""

SECONDS = {"quick": 0, "thorough": 600}     # thorough: new rounds of sessions are started until then

ASSUMPTIONS = [
    "TLC and the JVM, rustc and the harness's recording of what the library returned are trusted; the verdict on every recorded session is TLC's",
    "sessions beyond those written out for TLC are screened by the harness's mirror of the specification, which only selects what TLC judges",
]

# sessions played (all screened), sessions judged by TLC, per property
QUICK = {
    "C01": (150000, 9000), "C02": (60000, 6000), "C03": (200000, 9000), "C04": (150000, 8000), "C05": (200000, 8000),
    "C06": (150000, 6000), "C07": (200000, 8000), "C08": (15000, 4000), "C09": (30000, 4000), "C10": (15000, 5000),
    "C11": (400000, 6000), "C12": (405, 405), "C13": (100000, 10000), "C14": (40000, 4000), "C15": (200000, 8000),
    "C16": (200000, 12000), "C17": (60000, 2500), "C18": (200000, 12000), "C19": (60000, 4500), "C20": (60000, 8000),
    "C21": (150000, 8000), "C22": (200000, 6000), "C23": (400000, 8000),
    "C24": (200000, 12000), "C25": (40000, 5000), "C26": (150000, 6000), "C27": (400000, 12000),
    "C28": (150000, 6000), "C29": (60000, 2200),
}

# tours of Lifecycle.tla's transitions (spec/lifecycle_tours.json), each for every PDU type
TOURS = {"C01": 700, "C02": 700, "C04": 700, "C15": 700}
N_TOURS = 249 * 66

def jobs(prop, tier):
    n, k = QUICK[prop]
    out = []
    if prop in TOURS:
        out.append({"name": "tours", "n": N_TOURS, "sample": TOURS[prop] * (6 if tier == "thorough" else 1), "args": ["--tours", "spec/lifecycle_tours.json"]})
    if tier == "thorough":
        once = prop == "C12"
        return out + [{"name": "sessions", "n": n if once else n * 6, "sample": k if once else k * 2, "repeat": True}]
    return out + [{"name": "sessions", "n": n, "sample": k}]

# The models of the specification behind each property: module, configuration, what it must (or is
# meant not to) satisfy.  "least" guards against a model that has lost its states.
def M(module, cfg, least=1, finds=None, timeout=600):
    return {"module": module, "cfg": cfg + ".cfg", "least": least, "finds": finds, "timeout": timeout}

LIFE, LIFE_T = M("Lifecycle", "Lifecycle_q", 5000), M("Lifecycle", "Lifecycle_t", 50000)
PDUS, PDUS_T = M("MC_Wire", "MC_Wire_pdus", 2000), M("MC_Wire", "MC_Wire_pdus_t", 5000)
RECS, RECS_T = M("MC_Wire", "MC_Wire_records", 8000), M("MC_Wire", "MC_Wire_records_t", 30000)
CUTS, CUTS_T = M("MC_Wire", "MC_Wire_cuts", 3000), M("MC_Wire", "MC_Wire_cuts_t", 30000)
STREAM, STREAM_T = M("Stream", "Stream_q", 30000), M("Stream", "Stream_t", 30000)
READ, READ_T = M("Reading", "Reading_q", 1700), M("Reading", "Reading_t", 5000)
USERS, USERS_T = M("MC_Wire", "MC_Wire_user", 3000), M("MC_Wire", "MC_Wire_user_t", 15000)
OWN, OWN_T = M("MC_Wire", "MC_Wire_own", 2000), M("MC_Wire", "MC_Wire_own_t", 12000)
APART, APART_T = M("Apart", "Apart_q", 60000), M("Apart", "Apart_t", 180000)
MADE, MADE_T = M("MC_Made", "Made_q", 8000), M("MC_Made", "Made_t", 150000)
CHECKED, CHECKED_T = M("MC_Checked", "Checked_q", 2300), M("MC_Checked", "Checked_t", 36000)
GATE, GATE_T = M("Gate", "Gate_q", 15000), M("Gate", "Gate_t", 90000)

QUICK_MODELS = {
    "C01": [LIFE, PDUS], "C02": [LIFE], "C03": [PDUS], "C04": [LIFE], "C05": [PDUS], "C06": [PDUS], "C07": [RECS],
    "C08": [GATE], "C09": [GATE], "C10": [CUTS],
    "C11": [M("Claims", "Claims_grow", 40000), M("Claims", "Claims_clamp", 40000), M("Claims", "Claims_trust", finds="Bounded"),
            M("Claims", "Claims_unchecked", finds="InBounds")],
    "C12": [M("MC_Enums", "MC_Enums_q", 1000)], "C13": [M("MC_Status", "MC_Status", 7000)], "C14": [STREAM], "C15": [LIFE, PDUS],
    "C16": [M("Clock", "Clock_one", 100000), M("Clock", "Clock_two", finds="OneInstant")], "C17": [M("Parts", "Parts_q", 3000)],
    "C18": [M("MC_Vectors", "MC_Vectors", 15000)], "C19": [M("Datum", "Datum_q", 3500)], "C20": [STREAM], "C21": [M("Marking", "Marking_q", 100000)],
    "C22": [READ], "C23": [READ], "C24": [MADE], "C25": [CHECKED, LIFE], "C26": [USERS], "C27": [CHECKED], "C28": [OWN],
    "C29": [APART, M("Apart", "Apart_shared", finds="Alone"), M("Apart", "Apart_kept", finds="Alone")],
}
THOROUGH_MODELS = {
    "C01": [LIFE_T, PDUS_T], "C02": [LIFE_T], "C03": [PDUS_T, RECS_T], "C04": [LIFE_T], "C05": [PDUS_T], "C06": [PDUS_T], "C07": [RECS_T],
    "C08": [GATE_T], "C09": [GATE_T], "C10": [CUTS_T], "C11": [], "C12": [M("MC_Enums", "MC_Enums_t", 15000)], "C13": [], "C14": [STREAM_T],
    "C15": [LIFE_T, PDUS_T], "C16": [], "C17": [M("Parts", "Parts_t", 10000)], "C18": [], "C19": [M("Datum", "Datum_t", 15000)], "C20": [STREAM_T],
    "C21": [M("Marking", "Marking_t", 1000000)], "C22": [READ_T], "C23": [READ_T], "C24": [MADE_T], "C25": [CHECKED_T], "C26": [USERS_T], "C27": [CHECKED_T], "C28": [OWN_T], "C29": [APART_T],
}

# models with nothing bounded: inductive invariants, proved with Apalache
UNBOUNDED = {"C10": ["AllReading"], "C11": ["AllClaims"], "C19": ["AllDatum"], "C25": ["AllReading"], "C27": ["AllReading"]}

def models(prop, tier):
    return QUICK_MODELS[prop] + (THOROUGH_MODELS[prop] if tier == "thorough" else [])
