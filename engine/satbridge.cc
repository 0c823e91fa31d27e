// AIG -> CNF (Tseitin, cone of influence only) -> MiniSat, incrementally.
// Built on demand by engine/satlib.py against the installed libminisat.
#include <stdint.h>
#include <inttypes.h>
#include <time.h>
#include <vector>
#include <minisat/core/Solver.h>

using namespace Minisat;

static std::vector<int> A, B;            // node -> fanins (-1: variable)
static std::vector<int> G;               // node -> group or -1
static std::vector<std::vector<int> > groups;

struct Sat {
    Solver s;
    std::vector<int> var;                // node -> variable or -1
    std::vector<char> gdone;
    std::vector<int> stack;
    long clauses;
    // Only the variables below the query and below the asserted facts are
    // decided.  Everything else follows: gates are defined by their inputs,
    // and the one-hot groups are complete.
    std::vector<int> mark;               // node -> query that needs it
    std::vector<char> always;            // node below an asserted fact
    std::vector<int> now;                // nodes decided in this query
    int stamp;
    Sat() : clauses(0), stamp(0) {}

    // a node and everything below it
    template <class F> void below(int n0, F visit) {
        std::vector<int> st(1, n0);
        while (!st.empty()) {
            int n = st.back();
            st.pop_back();
            if (!visit(n)) continue;
            if (n == 0) continue;
            if (A[n] >= 0) {
                st.push_back(A[n] >> 1);
                st.push_back(B[n] >> 1);
            }
        }
    }

    void fact(int l) {
        if (always.size() < A.size()) always.resize(A.size(), 0);
        below(l >> 1, [this](int n) {
            if (always[n]) return false;
            always[n] = 1;
            s.setDecisionVar(var[n], true);
            return true;
        });
    }

    void query(int l) {
        if (always.size() < A.size()) always.resize(A.size(), 0);
        if (mark.size() < A.size()) mark.resize(A.size(), 0);
        stamp++;
        std::vector<int> old;
        old.swap(now);
        if (l != 1)
            below(l >> 1, [this](int n) {
                if (always[n] || mark[n] == stamp) return false;
                mark[n] = stamp;
                now.push_back(n);
                s.setDecisionVar(var[n], true);
                return true;
            });
        for (size_t i = 0; i < old.size(); i++)
            if (mark[old[i]] != stamp && !always[old[i]])
                s.setDecisionVar(var[old[i]], false);
    }

    Lit lit(int l) {
        Var v = var[l >> 1];
        return mkLit(v, l & 1);
    }

    void need(int l) {
        if (var.size() < A.size()) var.resize(A.size(), -1);
        if (gdone.size() < groups.size()) gdone.resize(groups.size(), 0);
        stack.push_back(l >> 1);
        while (!stack.empty()) {
            int n = stack.back();
            if (var[n] >= 0) { stack.pop_back(); continue; }
            if (n == 0) {
                var[0] = s.newVar(l_Undef, false);
                s.addClause(mkLit(var[0], true));   // node 0 is false
                stack.pop_back();
                continue;
            }
            int a = A[n], b = B[n];
            if (a < 0) {
                var[n] = s.newVar(l_Undef, false);
                stack.pop_back();
                int g = G[n];
                if (g >= 0 && !gdone[g]) {
                    gdone[g] = 1;
                    std::vector<int>& v = groups[g];
                    vec<Lit> c;
                    for (size_t i = 0; i < v.size(); i++) {
                        if (var[v[i]] < 0) var[v[i]] = s.newVar(l_Undef, false);
                        c.push(mkLit(var[v[i]]));
                    }
                    s.addClause(c);
                    for (size_t i = 0; i < v.size(); i++)
                        for (size_t j = 0; j < i; j++)
                            s.addClause(mkLit(var[v[i]], true),
                                        mkLit(var[v[j]], true));
                    clauses += 1 + v.size() * (v.size() - 1) / 2;
                }
                continue;
            }
            bool ready = true;
            if (var[a >> 1] < 0) { stack.push_back(a >> 1); ready = false; }
            if (var[b >> 1] < 0) { stack.push_back(b >> 1); ready = false; }
            if (!ready) continue;
            stack.pop_back();
            var[n] = s.newVar(l_Undef, false);
            Lit x = mkLit(var[n]), la = lit(a), lb = lit(b);
            s.addClause(~x, la);
            s.addClause(~x, lb);
            s.addClause(x, ~la, ~lb);
            clauses += 3;
        }
    }
};

extern "C" {

void aig_reset(void) { A.clear(); B.clear(); G.clear(); groups.clear(); }

void aig_push(int n, const int* a, const int* b) {
    for (int i = 0; i < n; i++) {
        A.push_back(a[i]);
        B.push_back(b[i]);
        G.push_back(-1);
    }
}

void aig_group(int n, const int* v) {
    for (int i = 0; i < n; i++) G[v[i]] = (int)groups.size();
    groups.push_back(std::vector<int>(v, v + n));
}

void* sat_new(void) { return new Sat(); }
void sat_free(void* p) { delete (Sat*)p; }

// lemma: the literal follows from what was asserted before
int sat_add(void* p, int l, int lemma) {
    Sat* t = (Sat*)p;
    try {
        t->need(l);
        t->s.addClause(t->lit(l));
        t->clauses++;
        if (!lemma) t->fact(l);
        return 0;
    } catch (...) { return -1; }
}

// 1 satisfiable, 0 unsatisfiable, -1 limit reached, -2 out of memory
int sat_check(void* p, int l, double limit) {
    Sat* t = (Sat*)p;
    try {
        vec<Lit> as;
        if (l != 1) { t->need(l); as.push(t->lit(l)); }
        t->query(l);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        for (;;) {
            t->s.setConfBudget(3000);
            lbool r = t->s.solveLimited(as);
            t->s.budgetOff();
            if (r == l_True) return 1;
            if (r == l_False) return 0;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9
                    > limit)
                return -1;
        }
    } catch (...) { return -2; }
}

// values of nodes after sat_check() == 1; 0 false, 1 true, 2 not encoded
void sat_values(void* p, int n, const int* nodes, char* out) {
    Sat* t = (Sat*)p;
    for (int i = 0; i < n; i++) {
        int k = nodes[i];
        int v = k < (int)t->var.size() ? t->var[k] : -1;
        if (v < 0 || v >= t->s.model.size()) out[i] = 2;
        else out[i] = t->s.model[v] == l_Undef ? 2 :
                      t->s.model[v] == l_True ? 1 : 0;
    }
}

long sat_clauses(void* p) { return ((Sat*)p)->clauses; }
long sat_vars(void* p) { return ((Sat*)p)->s.nVars(); }
long sat_conflicts(void* p) { return (long)((Sat*)p)->s.conflicts; }

}
