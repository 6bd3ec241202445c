#!/usr/bin/env python3
"""Writes harness/errs/types_test.go: a catalogue of random struct types (nested embedding, shadowing, unexported and embedded non-struct fields)."""
import os, random
R = random.Random(20240601)
FIELDS = ["A", "B", "C", "D", "X", "Ä1"]
TYPES = ["int", "string", "any", "error", "*int", "[]int", "map[string]int", "func()", "bool", "[2]int", "fmt.Stringer", "chan int", "Num", "*Num", "float64", "struct{ Z int }", "Shape"]
out = []
structs = []  # (name, pointerfree?)
def one(i):
    name = ("E" if R.random() < .55 else "e") + "%03d" % i
    members, used = [], set()
    flavour = R.random()
    for _ in range(R.choice([0, 1, 2, 2, 3, 3, 4])):
        f = R.choice(FIELDS)
        if f in used:
            continue
        used.add(f)
        members.append("%s %s" % (f, R.choice(TYPES)))
    for _ in range(R.choice([0, 0, 1, 1, 2, 3])):
        if not structs:
            break
        e = R.choice(structs[-25:] if R.random() < .7 else structs)
        if e in used:
            continue
        used.add(e)
        members.append(e)
    if flavour < .12:
        k = R.choice(["hidden int", "Num", "*Num", "error", "Shape", "num", "_ int", "*num", "shape", "ä int"])
        base = k.split()[0].lstrip("*")
        if base not in used:
            members.append(k)
    elif flavour < .18 and structs:
        e = R.choice(structs)
        if e not in used:
            members.append("*" + e)
    R.shuffle(members)
    out.append("type %s struct {\n%s}\n" % (name, "".join("\t%s\n" % m for m in members)))
    structs.append(name)
for i in range(160):
    one(i)
fixed = """
// some by hand
type leafX struct{ X int }
type midX struct{ leafX }
type twice struct {
	leafX
	midX
}
type twiceResolved struct {
	leafX
	midX
	X string
}
type deep1 struct {
	A int
	deep2
}
type deep2 struct {
	A string
	deep3
}
type deep3 struct {
	A bool
	B deep4
}
type deep4 struct{ A, B any }
type ambiguous struct {
	leafX
	other
}
type other struct{ X string }
type through struct {
	outerX
	C int
}
type outerX struct {
	X error
	midX
}
type wide struct{ A, B, C, D, F, G, H, I, J, K any }
type withShape struct {
	Shape
	A int
}
type generic[T any] struct{ A T }
type embedsGeneric struct{ generic[int] }
type wider struct {
	W00, W01, W02, W03, W04, W05, W06, W07, W08, W09, W10, W11, W12 int
	half
	A, W13, W14, W15, W16 string
}
type half struct {
	W00, W07, W14, W21, B, C string
	W22, W23, W24, W25, W26  any
	quarter
}
type quarter struct {
	W21, W24, W31, W00, C bool
	X                     int
}
type clash struct {
	V00, V01, V02, V03, V04, V05, V06, V07, V08, V09 int
	half
	sameHalf
}
type sameHalf struct{ D, W25 any }
type widest struct {
""" + "".join("\tU%02d %s\n" % (i, ["int", "string", "any", "[]int", "error", "bool"][i % 6]) for i in range(70)) + """}
type down0 struct {
	A int
	down1
}
type down1 struct {
	B int
	down2
}
type down2 struct {
	A, C int
	down3
}
type down3 struct {
	D string
	down4
}
type down4 struct {
	B, E any
	down5
}
type down5 struct {
	down6
	C, F error
}
type down6 struct{ A, B, C, D, E, F, G, X any }
"""
extra = ["twice", "twiceResolved", "deep1", "deep2", "deep3", "deep4", "ambiguous", "through", "outerX", "wide", "withShape", "struct{}", "struct{ A int }", "struct{ a int }", "generic[any]",
         "generic[*int]", "embedsGeneric", "int", "*leafX", "[]leafX", "any", "error", "map[string]any", "Num", "func()", "struct{ *leafX }", "struct{ *Num }", "struct{ Num }", "struct{ Shape }",
         "wider", "half", "quarter", "clash", "widest", "down0", "down3", "down5", "down6"]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/errs/types_test.go")
with open(p, "w") as f:
    f.write("//go:build go1.23\n\n// Written by tools/gen_structs.py.\n\npackage errs\n\nimport \"fmt\"\n\ntype Num int\ntype num int\ntype Shape interface{ Area() int }\ntype shape interface{ Area() int }\n\n")
    f.write("\n".join(out) + fixed)
    f.write("\nvar catalogue = []*sops{\n" + "".join("\topsFor[%s](),\n" % s for s in structs + extra) + "}\n")
    names = [s for s in structs + extra if "]" not in s or s.startswith("generic")]
    f.write("\nvar pairs = []pair{\n" + "".join("\tpairOf[%s, %s](),\n" % (R.choice(names), R.choice(structs[:60] + extra)) for _ in range(120)) + "}\n")
os.system("gofmt -w " + p)
