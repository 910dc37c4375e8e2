// Stand-in for SAPPOROBDD's ZBDD.h (see BDD.h).
#pragma once
#include "BDD.h"

class ZBDD {
    int f;
    explicit ZBDD(int id, char) : f(id) {}
public:
    ZBDD() : f(0) {}
    ZBDD(int val) : f(val ? 1 : 0) {}
    static ZBDD ofId(int id) { return ZBDD(id, 'x'); }
    int id() const { return f; }
    int Top() const { sapporo::Guard g; return sapporo::lib().node[f].var; }
    bddword GetID() const { sapporo::Guard g; return (bddword) f; }
    ZBDD OffSet(int v) const { sapporo::Guard g; std::map<int, int> m; return sapporo::okVar(v, "OffSet") ? ofId(sapporo::zsplit(f, v, false, m)) : *this; }
    ZBDD OnSet0(int v) const { sapporo::Guard g; std::map<int, int> m; return sapporo::okVar(v, "OnSet0") ? ofId(sapporo::zsplit(f, v, true, m)) : ZBDD(0); }
    ZBDD OnSet(int v) const { return OnSet0(v).Change(v); }
    ZBDD Change(int v) const { sapporo::Guard g; std::map<int, int> m; return sapporo::okVar(v, "Change") ? ofId(sapporo::zchange(f, v, m)) : *this; }
    friend ZBDD operator+(ZBDD const& a, ZBDD const& b) { sapporo::Guard g; sapporo::Memo m; return ofId(sapporo::zunion(a.f, b.f, m)); }
    ZBDD& operator+=(ZBDD const& o) { return *this = *this + o; }
    friend bool operator==(ZBDD const& a, ZBDD const& b) { return a.f == b.f; }
    friend bool operator!=(ZBDD const& a, ZBDD const& b) { return a.f != b.f; }
};
