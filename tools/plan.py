"""How many cases each property gets, in which build profile.

quick: a fixed amount of work (a pure function of the seed).
thorough: (profile, cases, seconds[, part]): stops at whichever comes first.
A part is a second search belonging to the same property.
"""


def q(checked, release):
    return [("checked", checked, None), ("release", release, None)]


def t(secs=300):
    return [("checked", 10 ** 12, secs), ("release", 10 ** 12, secs)]


# Coverage-guided on top, where a case costs little and no counting is disturbed.
FUZZED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14",
          "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"]

PLAN = {
    "C01": {"quick": q(375000, 375000), "thorough": t(600)},
    "C02": {"quick": q(1500000, 1250000) + [("release", 16, None, "C02x"), ("plain", 400, None, "C02s")],
            "thorough": t(600) + [("checked", 64, 600, "C02x"), ("plain", 10 ** 12, 200, "C02s"), ("asan", 10 ** 12, 300)]},
    "C03": {"quick": q(1250000, 1000000), "thorough": t()},
    "C04": {"quick": q(1750000, 1500000), "thorough": t()},
    "C05": {"quick": q(1000000, 1000000), "thorough": t()},
    "C06": {"quick": q(1000000, 750000), "thorough": t()},
    "C07": {"quick": q(1750000, 1500000), "thorough": t()},
    "C08": {"quick": q(1500000, 1250000), "thorough": t()},
    "C09": {"quick": q(8000000, 6000000), "thorough": t()},
    "C10": {"quick": q(2000000, 1750000), "thorough": t()},
    "C11": {"quick": q(2500000, 2000000), "thorough": t()},
    "C12": {"quick": q(62500, 62500), "thorough": t()},
    "C13": {"quick": q(1250000, 1000000), "thorough": t()},
    "C14": {"quick": q(500000, 375000), "thorough": t()},
    "C15": {"quick": q(175000, 150000), "thorough": t()},
    "C16": {"quick": q(2500000, 2000000) + [("release", 16, None, "C16x")],
            "thorough": t() + [("checked", 64, 600, "C16x")]},
    "C17": {"quick": q(2500000, 2000000), "thorough": t()},
    "C18": {"quick": q(375000, 250000) + [("asan", 240000, None)], "thorough": t() + [("asan", 10 ** 12, 600)]},
    "C19": {"quick": q(625000, 500000), "thorough": t()},
    "C20": {"quick": q(1500000, 1250000), "thorough": t()},
    "C21": {"quick": q(2000000, 1750000), "thorough": t()},
    "C22": {"quick": q(1500000, 1250000), "thorough": t()},
    "C23": {"quick": q(2000000, 1500000), "thorough": t(120)},
    "C24": {"quick": q(400000, 400000) + [("release", 12000, None, "C24f")],
            "thorough": t() + [("checked", 10 ** 12, 120, "C24f"), ("release", 10 ** 12, 180, "C24f")]},
    "C25": {"quick": q(40000, 60000), "thorough": t()},
    "C26": {"quick": q(1000000, 1000000), "thorough": t()},
    "C27": {"quick": [("release", 240, None)], "thorough": [("release", 10 ** 12, 600)],
            "technique": "property-based testing: generated workloads at two sizes, metamorphic relation between instruction counts (callgrind)"},
    # Compared with the other builds, which run beside it.
    "C28": {"quick": [("checked", 700000, None)], "thorough": [("checked", 10 ** 12, 400)], "also": ["plain", "release"]},
    "C29": {"quick": q(800, 1000) + [("release", 20, None, "C29x")], "thorough": t() + [("release", 10 ** 12, 400, "C29x")]},
}
for x in FUZZED:
    PLAN[x]["thorough"] = PLAN[x]["thorough"] + [("fuzz", 0, 300)]
