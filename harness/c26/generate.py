#!/usr/bin/env python3
"""generate.py REPO OUT SEED: writes the units of one program and prints how it is put together, as JSON.

Every header of the library is the first thing one unit includes; four further units include all headers, in orders drawn from
the seed, some of them more than once. Some of the units are in the program itself, some in two shared libraries, one in a
library which is loaded while the program runs."""
import json, os, random, sys

repo, out, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
rng = random.Random(seed)
here = os.path.dirname(os.path.abspath(__file__))
headers = sorted(h for h in os.listdir(os.path.join(repo, "include")) if h.endswith(".hpp"))
name = lambda h: h[:-4].replace(".", "_")
uses = [h for h in headers if os.path.exists(os.path.join(here, f"use_{name(h)}.inc"))]


def write(file, text):
    with open(os.path.join(out, file), "w") as f:
        f.write(text)
    return file


def register(h, unit):
    return f'static Use const registered_{name(h)}("{h}","{unit}",&UNIT::use_{name(h)});\n' if h in uses else ""


def alone(h):
    text = f'#define UNIT alone_{name(h)}\n' + f'#include "{h}"\n' * rng.choice((1, 2))
    if h in uses:
        text += f'#include "c26/use_{name(h)}.inc"\n'
    return write(f"alone_{name(h)}.cpp", text + '#include "c26/registry.hpp"\n' + register(h, "alone"))


def all_of(unit):
    order = headers + rng.sample(headers, 4)
    rng.shuffle(order)
    text = f"#define UNIT {unit}\n" + "".join(f'#include "{h}"\n' for h in order)
    us = uses[:]
    rng.shuffle(us)
    text += "".join(f'#include "c26/use_{name(h)}.inc"\n' for h in us) + '#include "c26/unit.inc"\n' + "".join(register(h, unit) for h in us)
    return write(f"{unit}.cpp", text)


def names():
    order = headers[:]
    rng.shuffle(order)
    return write("own_names.cpp", '#include "c26/names.inc"\n' + "".join(f'#include "{h}"\n' for h in order) + '#include "c26/names_use.inc"\n')


places = [[], [], [], []]  # the program, two libraries, the library loaded later
for i, u in enumerate(("unit_a", "unit_b", "unit_c", "unit_d", "unit_e")):
    places[(0, 0, 1, 2, 3)[i]].append(all_of(u))
for h in headers:
    places[rng.choice((0, 0, 1, 2, 3))].append(alone(h))
places[rng.choice((0, 1, 2, 3))].append(names())
print(json.dumps({"program": places[0], "libraries": [places[1], places[2]], "loaded": places[3], "headers": len(headers), "uses": len(uses)}))
