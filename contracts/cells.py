"""C02 (cells), C03 cell lookup and nearest surface"""
from spec import *
from common import *


def symcell(en, name="cell"):
    return LBox(Box(en.symobj("Cell", name), name))


def senses(en, cell):
    return en.field(en.load(cell), "surface_senses")


def inside(en, m, p):
    """the point is on the listed side of every surface of the map"""
    return allidx(m.n, lambda i: s_contains(m.key(i).id, p) == tobool(m.val(m.key(i))))


@unit("C02", "Cell::Contains", ["Cell::Contains"], contracts=SURF)
def u(en):
    def body():
        c, p = symcell(en), LBox(Box(en.symobj("Point", "p")))
        m = senses(en, c)
        r = tobool(method(en, c, "Contains", [p]))
        P = xyz(en, p)
        i = z3.Int("i")
        en.prove(z3.Implies(z3.And(r, 0 <= i, i < m.n), s_contains(m.key(i).id, P) == tobool(m.val(m.key(i)))),
                 "a point in the cell is on the listed side of every surface")
        en.prove(z3.Implies(inside(en, m, P), r), "a point on the listed side of every surface is in the cell")
    verify(en, "Cell::Contains", body)


@unit("C03", "Cell::NearestSurface", ["Cell::NearestSurface"], contracts=SURF)
def u(en):
    def body():
        c, p, d = symcell(en), LBox(Box(en.symobj("Point", "p"))), LBox(Box(en.symobj("Direction", "d")))
        m = senses(en, c)
        P, D = xyz(en, p), xyz(en, d)
        try:
            r = method(en, c, "NearestSurface", [p, d])
        except CppThrow:
            del en.frames[:]
            en.prove(m.n == 0, "an error only for a cell without bounding surfaces")
            return
        en.prove(m.n > 0, "a cell without bounding surfaces is an error")
        s, x = r.v
        i = z3.Int("i")
        own = s_distance(s.id, P, D)
        en.prove(tobool(m.dom(s)), "the surface returned bounds the cell")
        en.prove(tobool(f_same(x, own)), "the distance returned is that to the surface returned")
        other = s_distance(m.key(i).id, P, D)
        en.prove(z3.Implies(z3.And(0 <= i, i < m.n), tobool(f_le(x, other))), "no bounding surface is closer")
    verify(en, "Cell::NearestSurface", body)


def cell_contains(en, this, args):
    return UF("Cell.Contains", I, R, R, R, B)(oid(en, this), *xyz(en, args[0]))


@unit("C03", "World::FindCellContaining", ["World::FindCellContaining"], contracts={"Cell::Contains": cell_contains})
def u(en):
    def body():
        w, p = LBox(Box(en.symobj("World", "world"))), LBox(Box(en.symobj("Point", "p")))
        cells = en.field(en.load(w), "cells")
        P = xyz(en, p)
        at = lambda i: UF("Cell.Contains", I, R, R, R, B)(en.sym_ident(cells.elem(i)), *P)
        i, j = z3.Ints("i j")
        f = fn(en, "World::FindCellContaining")
        try:
            r = en.call(f, w, [p])
        except CppThrow:
            del en.frames[:]
            en.prove(z3.Implies(z3.And(0 <= i, i < cells.n), z3.Not(at(i))), "an error only if no cell contains the point")
            return
        rid = en.ptr_to(r).id
        en.prove(z3.Not(allidx(cells.n, lambda k: z3.Not(at(k)))), "some cell contains the point unless an error is reported")
        # the first cell that contains the point is the one returned
        first = z3.And(0 <= i, i < cells.n, at(i), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(at(j)))))
        en.prove(z3.Implies(first, rid == en.sym_ident(cells.elem(i))), "the first containing cell in input order is returned")
    verify(en, "World::FindCellContaining", body)
