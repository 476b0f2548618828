// Linearizability checker (Wing & Gong search with memoisation) over histories stamped with the
// simulator's global sequence number.
#pragma once
#include "sim.h"
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>

namespace sim {
struct LOp { int kind; int64_t a, b; int64_t r, r2; uint64_t inv, ret; int tid; bool done; uint64_t hint; };
struct History {
	std::vector<LOp> ops;
	int begin(int kind, int64_t a = 0, int64_t b = 0) { Harness h; ops.push_back(LOp{ kind, a, b, 0, 0, seq(), ~0ULL, self(), false, 0 }); return (int)ops.size() - 1; }
	void end(int i, int64_t r = 0, int64_t r2 = 0) { Harness h; ops[i].r = r; ops[i].r2 = r2; ops[i].ret = seq(); ops[i].done = true; event("op k=%d a=%lld b=%lld -> %lld", ops[i].kind, (long long)ops[i].a, (long long)ops[i].b, (long long)r); }
	// try the insertion of an element just before its removal: makes the search for sequences nearly linear
	template <class A, class B> void hint(A inserted, B removed)
	{
		Harness h; std::map<int64_t, uint64_t> when;
		for (auto &x : ops) if (x.done && removed(x)) when[removed(x)] = x.ret;
		for (auto &x : ops) if (inserted(x) && when.count(inserted(x))) x.hint = std::max(when[inserted(x)], (uint64_t)1);
	}
};
// Model: copyable; bool apply(const LOp &) -> false when the recorded result is impossible in this
// state (for an unfinished operation the result is unknown: any is acceptable); std::string key().
template <class M> struct Lin {
	const std::vector<LOp> &o; std::vector<int> ord; std::set<std::pair<uint64_t, uint64_t> > seen; uint64_t budget; size_t best; std::vector<int> cur, bestv;
	Lin(const std::vector<LOp> &v) : o(v), budget(400000), best(0) {}
	static std::pair<uint64_t, uint64_t> hash2(const std::string &k)
	{
		uint64_t a = 0xcbf29ce484222325ULL, b = 0x9e3779b97f4a7c15ULL;
		for (unsigned char c : k) { a = (a ^ c) * 0x100000001b3ULL; b = (b + c) * 0xff51afd7ed558ccdULL; b ^= b >> 29; }
		return std::make_pair(a, b);
	}
	// 1 yes, 0 no, -1 budget exhausted
	int go(const M &m, std::vector<char> &used, size_t left)
	{
		if (!left) return 1;
		if (!budget--) return -1;
		uint64_t minret = ~0ULL;
		for (size_t i = 0; i < o.size(); i++) if (!used[i] && o[i].done && o[i].ret < minret) minret = o[i].ret;
		std::string k(used.begin(), used.end()); k += m.key();
		if (!seen.insert(hash2(k)).second) return 0;
		if (cur.size() >= best) { best = cur.size(); bestv = cur; }
		int res = 0;
		for (size_t i : ord) {
			if (used[i] || o[i].inv > minret) continue;
			M n = m;
			if (!n.apply(o[i])) continue;
			used[i] = 1; cur.push_back((int)i);
			int x = go(n, used, left - (o[i].done ? 1 : 0));
			used[i] = 0; cur.pop_back();
			if (x) return x;
		}
		return res;
	}
	// which candidate to try first (affects the time of the search only)
	static uint64_t key(const LOp &x) { return x.hint ? x.hint : x.ret; }
	int check(const M &init)
	{
		std::vector<char> used(o.size(), 0); size_t left = 0;
		for (size_t i = 0; i < o.size(); i++) ord.push_back((int)i);
		std::stable_sort(ord.begin(), ord.end(), [this](int a, int b) { return key(o[a]) < key(o[b]); });
		for (auto &x : o) left += x.done;
		if (o.size() > 300) return -1;
		return go(init, used, left);
	}
};
template <class M> void check_linearizable(const History &h, const M &init, const char *(*name)(int))
{
	Harness hh;
	Lin<M> l(h.ops);
	int r = l.check(init);
	if (r < 0) { count("probe.lin_budget"); return; }
	count("probe.lin_checked");
	if (r) return;
	std::string s;
	for (auto &x : h.ops) {
		char b[160];
		if (x.done) snprintf(b, sizeof b, "; [%llu,%llu] t%d %s(%lld,%lld)=%lld", (unsigned long long)x.inv, (unsigned long long)x.ret, x.tid, name(x.kind), (long long)x.a, (long long)x.b, (long long)x.r);
		else snprintf(b, sizeof b, "; [%llu,-] t%d %s(%lld,%lld) unfinished", (unsigned long long)x.inv, x.tid, name(x.kind), (long long)x.a, (long long)x.b);
		if (s.size() < 2300) s += b;
	}
	fail("not-linearizable", "no sequential order of the %zu operations explains their results (best prefix %zu): history%s", h.ops.size(), l.best, s.c_str());
}
}
