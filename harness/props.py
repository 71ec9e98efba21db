"""What each property's check builds and runs."""
PROPS = {}


def prop(pid, src, quick, thorough, rule, **kw):
    PROPS[pid] = dict(src=src, cases={"quick": quick, "thorough": thorough}, rule=rule, **kw)


prop("H01", ["h01.cpp"], 2400, 120000, "one case per seeded configuration (type, rate, duration, block, layout, values, runs on one instance); distinct = distinct configuration",
     min={"runs": 1500, "blocks": 12000, "short-last-blocks": 200})

prop("H02", ["h02.cpp"], 4000, 600000, "one case per seeded setup with the support declared by each participant; distinct = distinct setup",
     min={"refused unsupported": 300, "accepted supported": 300, "refused no input": 50, "refused endless audio": 15, "refused wav file": 50, "accepted wav file": 50, "refused a check that forbids copies": 100, "refused a signal that forbids copies": 100, "refused a reference that forbids copies": 50, "refused an effect in a chain that forbids copies": 100, "refused an effect that forbids copies": 50, "refused an effect that forbids moves": 50})

prop("H05", ["h05.cpp"], 2000, 90000, "one case per seeded list of builder calls, run in 4 orders; distinct = distinct list of settings",
     min={"interleavings": 2000, "repeated settings": 500, "defaults": 100})

prop("H03", ["h03.cpp"], 4000, 360000, "one case per seeded run with 0 to 6 checks of known verdict; distinct = distinct configuration and check list",
     min={"failing expectations": 1000, "failing assertions": 100, "mixed outcomes": 300, "stock checks": 500})

prop("H04", ["h04.cpp"], 3000, 240000, "one case per seeded failing run; distinct = distinct configuration, failing position, label and decimals",
     min={"reports": 2000, "stock reports": 500, "very long audio": 1})

prop("S01", ["s01.cpp"], 3000, 200000, "one case per seeded signal, chain, rate and layout, rendered in several partitions and after resets; distinct = distinct specification",
     min={"partitions": 5000, "resets": 5000, "with automation": 300, "with chains": 1000})

prop("S02", ["s02.cpp"], 3000, 200000, "one case per seeded history of copies, moves, assignments, extensions, renderings, resets and destructions; distinct = distinct history",
     min={"copies": 5000, "moves": 2000, "assignments": 100, "extensions": 2000, "renderings": 5000})

prop("S03", ["s03.cpp"], 6000, 600000, "one case per seeded signal, rate, layout, length and partition; distinct = distinct configuration",
     min={"sines": 1000, "noises": 500, "noise statistics": 300, "long noises": 20, "silences": 100, "invalid frequencies": 100, "huge phases": 100})

prop("S04", ["s04.cpp"], 6000, 1200000, "one case per seeded sweep, rate, layout and partition, or chain of with-variants, or invalid setting; distinct = distinct configuration",
     min={"sweeps": 1000, "variants": 1500, "invalid settings": 100, "turned around twice": 100, "ended": 200, "zero duration": 30})

prop("S05", ["s05.cpp"], 5000, 600000, "one case per seeded chain of probes attached in different ways, or stock effect in chain against host; distinct = distinct configuration",
     min={"effect calls": 20000, "host comparisons": 500, "automated effects": 1000})

prop("S06", ["s06.cpp"], 16000, 480000, "one case per seeded wav file with playbacks, refusals and missing files; distinct = distinct file and mode",
     min={"playbacks": 3000, "looped": 500, "fewer channels": 500, "refusals": 2000, "empty files": 50, "missing or unreadable files": 200, "format odd": 400})

prop("S07", ["s07.cpp"], 90000, 2400000, "one case per mutated file; distinct = distinct file content",
     min={"opened": 2000, "refused": 1000, "renderings of mutated files": 3000})

prop("D01", ["d01.cpp"], 6000, 480000, "one case per seeded gain effect with audio, automation, layout and partition; distinct = distinct configuration",
     min={"automated": 500, "constant": 500, "in place": 300, "mono to many": 500, "hosted runs": 500, "read back": 3000, "unsupported layouts": 3000})

prop("D02", ["d02.cpp"], 6000, 480000, "one case per seeded threshold, audio, layout and partition; distinct = distinct configuration",
     min={"clipped samples": 100000, "passed samples": 100000, "hosted runs": 500, "read back": 3000, "refused automation": 2000})

prop("E01", ["e01.cpp"], 8000, 640000, "one case per seeded curve, rate, partition and history of resets, copies and extensions; distinct = distinct curve and rate",
     min={"values": 1000000, "resets": 1000, "copies": 1000, "extended copies": 400, "extended after use": 500, "exponential": 500, "s-curves": 1000, "exact curves": 500, "ends": 1000, "without segments": 100})

prop("E02", ["e02.cpp"], 6000, 360000, "one case per seeded run, or sequence of runs, with automated probe effects; distinct = distinct configuration",
     min={"counted values": 300000, "curve values": 300000, "repeated runs": 1000, "runs with short last blocks": 500, "effects without automation": 500, "driven runs": 1000, "used signals": 2000})

prop("E03", ["e03.cpp"], 10000, 1000000, "one case per seeded program of attach, replace, copy, move, assign, render and destroy operations; distinct = distinct program",
     min={"attached": 3000, "replaced": 1000, "refused": 1000, "copies with automation": 1000, "moves": 1000, "assignments": 300, "move-assignments": 200, "self-assignments": 100, "renderings": 10000})

prop("M01", ["m01.cpp"], 8000, 640000, "one case per seeded reference, tolerance, observed audio and history of restarts and copies; distinct = distinct reference and setting",
     min={"accepted blocks": 20000, "rejected blocks": 3000, "failure details": 3000, "exact scenes": 1000, "stock scenes": 1000, "restarts": 3000, "copies": 1000, "runs": 1000})

prop("M02", ["m02.cpp"], 10000, 1500000, "one case per seeded level, tolerance and series of audios, or run; distinct = distinct setting and audio",
     min={"peaks-at accepted": 2000, "peaks-at rejected": 2000, "peaks-below accepted": 5000, "peaks-below rejected": 2000, "audio with NaNs": 500, "failure details": 5000, "runs": 1500})

prop("U01", ["u01.cpp"], 20000, 900000, "one case per group of about 60 seeded values given to one family of functions; distinct = distinct group",
     min={"decibels": 50000, "phases": 50000, "roundings": 50000, "comparisons": 50000, "literals": 100000, "paths": 5000})

prop("B01", ["b01.cpp"], 12000, 800000, "one case per seeded program of up to 30 buffer operations; distinct = distinct program",
     min={"states compared": 100000, "refusals": 1000, "self-appends": 300, "self-assignments": 300, "move-assignments": 1000, "moves": 1000, "magnitudes": 5000, "magnitude refusals": 3000})

prop("W01", ["w01.cpp"], 8000, 800000, "one case per seeded audio, rate and format; distinct = distinct audio",
     min={"files": 5000, "read back": 4000, "refusals": 150, "refused rates": 50, "rates beside whole ones": 100, "long files": 2, "overwritten files": 1000, "files with special values": 1000})

prop("W02", ["w02.cpp"], 2500, 80000, "one case per seeded run that saves a plot; distinct = distinct run",
     min={"plots": 2000, "lines": 10000, "frames": 1000000, "single frames": 20, "time marks": 5000, "foreign locales": 150})

prop("H06", ["h06.cpp"], 4000, 250000, "one case per seeded run with save requests of every mode, outcome and place; distinct = distinct run and request",
     min={"wav files": 800, "wav files of failed runs": 300, "plots": 400, "plots of failed runs": 100, "runs that save nothing": 500, "outside the root": 300, "uncreatable wav files": 50})

prop("H07", ["h07.cpp"], 4000, 250000, "one case per seeded way of handing over, run again with the effect that came back and with faults injected into calls on the participants; distinct = distinct plan",
     min={"runs": 4000, "faults": 4000, "memory balances": 8000, "stock effects": 500, "refused hand-overs": 500})

prop("H08", ["h08.cpp"], 4000, 200000, "one case per seeded test, repeated after other tests, with the same objects, with the returned effect and in another process; distinct = distinct test",
     min={"again": 3500, "after other tests": 3500, "objects after other tests": 3500, "on the returned effect": 2000, "other tests with failures": 2000, "other processes": 100, "failing tests": 1000})

prop("T01", ["t01.cpp"], 20000, 3000000, "one case per seeded stock object and decimals setting; distinct = distinct text and setting",
     min={"signals": 4000, "effects": 4000, "matchers": 4000, "chains": 2000})

prop("R01", ["r01.cpp", "r01_b.cpp"], 6000, 40000, "one case per seeded set of tests and generators of known behaviour, run in a process of its own; distinct = distinct set",
     real_cli=True, min={"processes": 1500, "mixed runs": 400, "runs without failures": 200, "failed verdicts": 3000, "messages": 1500, "refused duplicates": 300, "generator runs": 200, "256 failing tests and more": 5, "tests of another file": 1500})

prop("R02", ["r02.cpp"], 2400, 50000, "one case per seeded command line, run in a process of its own; distinct = distinct command line",
     real_cli=True, min={"processes": 2000, "valid command lines": 1500, "help": 100, "invalid command lines": 100, "shuffles": 300, "generator runs": 300, "relative paths": 400, "empty roots": 100})

# dividing by zero is well defined for IEEE floating point numbers and part of HART's arithmetic (ramps from zero)
FULL = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all".split()
prop("X01", ["x01.cpp"], 6000, 180000, "one case per seeded program of up to 40 API calls with hostile values on a set of live objects, or run of the repository's own tests; distinct = distinct program",
     real_cli=True,
     variants=[
         {"name": "gcc", "san": FULL, "suite": True, "defs": ["-DX01_SUITE"]},
         {"name": "clang", "cxx": "clang++", "san": FULL, "scale": 0.5},
         {"name": "memcheck", "san": ["-O1"], "scale": 0.2, "wrap": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--child-silent-after-fork=yes"]},
     ],
     min={"operations": 50000, "runs completed": 3000, "blocks rendered": 2000, "blocks processed": 5000, "blocks judged": 3000, "test suites": 16})
