package main

import (
	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zzverif/hw"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

func str(name string, max int) string {
	b := v.Bytes(name, v.Choose("len "+name, max+1))
	return string(b)
}

// H_strtab: strings added one by one, in any number and repetition.
func H_strtab() {
	n := v.Choose("n", v.Param("n", 3)+1)
	var in []string
	for i := 0; i < n; i++ {
		in = append(in, str("s", v.Param("len", 1)))
	}
	stb := t.NewStringTableBuilder()
	for _, s := range in {
		stb.AddString(s)
	}
	stb.Finalize()
	st := stb.ToStringTable().S
	v.Assert(len(st) > 0 && st[0] == "", "index 0 is the empty string")
	for i := range st {
		for j := i + 1; j < len(st); j++ {
			v.Assert(st[i] != st[j], "each string once")
		}
	}
	freq := func(s string) int {
		c := 0
		for _, y := range in {
			if y == s {
				c++
			}
		}
		return c
	}
	for i := 1; i < len(st); i++ {
		v.Assert(freq(st[i]) > 0, "only added strings")
		if i > 1 {
			a, b := freq(st[i-1]), freq(st[i])
			v.Assert(a > b || a == b && st[i-1] < st[i], "by descending frequency, then by content")
		}
	}
	for _, s := range in {
		found := false
		v.Assert(!v.Panics(func() {
			ix := stb.GetIndex(s)
			found = int(ix) < len(st) && st[ix] == s
		}), "an added string is found")
		v.Assert(found, "an added string is found at its index")
	}
	q := str("q", v.Param("len", 1))
	if freq(q) == 0 && q != "" {
		v.Assert(v.Panics(func() { stb.GetIndex(q) }), "another string is refused")
		v.Reach("unknown")
	}
	v.Reach("done")
}

// H_strtab_many: enough strings that sorting is more than an insertion sort.
func H_strtab_many() {
	n := v.Param("many", 14)
	stb := t.NewStringTableBuilder()
	cnt := map[string]int{}
	k := v.Choose("pattern", 4)
	for i := 0; i < n; i++ {
		s := string([]byte{byte('a' + (i*7+k*5)%n)})
		times := 1 + (i*(k+1))%3
		for j := 0; j < times; j++ {
			stb.AddString(s)
		}
		cnt[s] += times
	}
	x := str("x", 1)
	stb.AddString(x)
	cnt[x]++
	stb.Finalize()
	st := stb.ToStringTable().S
	v.Assert(st[0] == "" && len(st) == len(cnt)+b2i(cnt[""] == 0), "all strings, empty first")
	for i := 2; i < len(st); i++ {
		a, b := cnt[st[i-1]], cnt[st[i]]
		v.Assert(a > b || a == b && st[i-1] < st[i], "by descending frequency, then by content")
	}
	for i, s := range st {
		v.Assert(int(stb.GetIndex(s)) == i, "index")
	}
	v.Reach("done")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// H_keyvals_lists: key and value lists of tag maps.
func H_tag_lists() {
	v.ShuffleMaps(6)
	m := map[string]string{}
	n, lv := v.Choose("n", v.Param("n", 2)+1), v.Choose("len v", 2)
	for i := 0; i < n; i++ {
		m[str("k", 1)] = string(v.Bytes("v", lv))
	}
	m2 := map[string]string{"b": string(v.Bytes("w", 1-lv))}
	stb := t.NewStringTableBuilder()
	stb.AddMap(m)
	stb.AddMap(m2)
	stb.Finalize()
	st := stb.ToStringTable().S
	ks, vs := stb.ToKeyVals(m)
	lin := stb.ToKeyValLinear(m)
	v.Assert(len(ks) == len(m) && len(vs) == len(m) && len(lin) == 2*len(m), "one pair per tag")
	for i := range ks {
		k, val := st[ks[i]], st[vs[i]]
		x, ok := m[k]
		v.Assert(ok && x == val, "the map's pair")
		v.Assert(lin[2*i] > 0 && st[lin[2*i]] == k && st[lin[2*i+1]] == val, "the same pairs in the linear list, where 0 is no key")
		if i > 0 {
			v.Assert(st[ks[i-1]] < k, "sorted by key")
		}
	}
	v.Assert(st[0] == "", "index 0 is the empty string")
	if _, ok := m[""]; !ok {
		for i := 1; i < len(st); i++ {
			v.Assert(st[i] != "", "the empty string once")
		}
	}
	v.Reach("done")
}

// H_high_level: a block made from nodes, ways and relations names their tags and roles.
func H_high_level() {
	k, s, role := str("k", 1), str("s", 1), str("role", 1)
	ns := t.Nodes{{Id: 1, Tags: map[string]string{k: s}, Lat: 100, Lon: 200}, {Id: 2, Tags: map[string]string{}}}
	ws := t.Ways{{Id: 3, Tags: map[string]string{s: k}, Nodes: []t.NodeId{1, 2}}}
	rs := t.Relations{{Id: 4, Tags: map[string]string{}, Roles: []string{role, k}, Members: []int64{3, 1}, MemberType: []int{1, 0}}}
	b := read(t.MakePrimitiveBlock(ns, ws, rs).Write(nil), &t.PBReader{})
	gn, gw, gr := b.ToNodes(), b.ToWays(), b.ToRelations()
	v.Assert(len(gn) == 2 && gn[0].Id == 1 && gn[1].Id == 2 && len(gn[0].Tags) == 1 && len(gn[1].Tags) == 0, "nodes")
	y, yok := gn[0].Tags[k]
	v.Assert(yok && y == s, "tag")
	v.Assert(gn[0].Lat == 100 && gn[0].Lon == 200, "position")
	x, ok := gw[0].Tags[s]
	v.Assert(len(gw) == 1 && gw[0].Id == 3 && len(gw[0].Tags) == 1 && ok && x == k && len(gw[0].Nodes) == 2 && gw[0].Nodes[0] == 1 && gw[0].Nodes[1] == 2, "way")
	v.Assert(len(gr) == 1 && gr[0].Id == 4 && hw.EqStrs(gr[0].Roles, []string{role, k}) && hw.EqI64s(gr[0].Members, []int64{3, 1}) && len(gr[0].MemberType) == 2 && gr[0].MemberType[0] == 1 && gr[0].MemberType[1] == 0, "relation")
	v.Reach("done")
}

// H_strtab_large: more strings than a byte can number, and lists that name them.
func H_strtab_large() {
	n := v.Param("strings", 300)
	name := func(i int) string { return string([]byte{byte('a' + i%25), byte('a' + i/25%25), byte('a' + i/625)}) }
	x := string(v.Bytes("x", 3))
	times := 1 + v.Choose("times", 2) // the symbolic string is first or among the others
	m := map[string]string{}
	known := false
	for i := 0; i < n; i += 2 {
		m[name(i)] = name(i + 1)
		known = known || x == name(i) || x == name(i+1)
	}
	v.Assume(!known)
	stb := t.NewStringTableBuilder()
	stb.AddMap(m)
	for i := 0; i < times; i++ {
		stb.AddString(x)
	}
	stb.Finalize()
	st := stb.ToStringTable().S
	v.Assert(st[0] == "" && len(st) == n+2, "all strings, empty first")
	if times == 2 {
		v.Assert(st[1] == x, "the most frequent string follows")
	} else {
		v.Assert(st[1] < st[2], "by content")
	}
	for i := 3; i < len(st); i++ {
		v.Assert(st[i-1] < st[i], "by content")
	}
	for i, s := range st {
		v.Assert(int(stb.GetIndex(s)) == i, "index")
	}
	ks, vs := stb.ToKeyVals(m)
	lin := stb.ToKeyValLinear(m)
	v.Assert(len(ks) == n/2 && len(vs) == n/2 && len(lin) == n, "one pair per tag")
	for i := range ks {
		k := st[ks[i]]
		v.Assert(m[k] != "" && m[k] == st[vs[i]], "the map's pair")
		v.Assert(lin[2*i] > 0 && st[lin[2*i]] == k && st[lin[2*i+1]] == st[vs[i]], "the same pairs in the linear list, where 0 is no key")
		v.Assert(i == 0 || st[ks[i-1]] < k, "sorted by key")
	}
	v.Reach("done")
}

// H_strtab_huge: more strings than two bytes can number, and more uses than two bytes can count.
func H_strtab_huge() {
	n := v.Param("strings", 66000)
	name := func(i int) string { // in ascending order
		return string([]byte{'s', byte('A' + i/900), byte('A' + i/30%30), byte('A' + i%30)})
	}
	x := "s" + string(v.Bytes("x", 4)) // longer than the others
	v.Assume(x < "sA")                 // before the others, if equally frequent
	stb := t.NewStringTableBuilder()
	stb.AddString("")
	uses := [4]int{1, 255, 256, 65536}[v.Choose("uses", 4)] // of a string, and one more of the next
	stb.AddString(x)
	if uses > 1 {
		n = 300
	}
	for i := 0; i < n; i++ {
		stb.AddString(name(i))
	}
	for i := 1; i < uses; i++ {
		stb.AddString(name(7))
		stb.AddString(name(8))
	}
	stb.AddString(name(8))
	stb.Finalize()
	st := stb.ToStringTable().S
	v.Assert(len(st) == n+2 && st[0] == "", "all strings, empty first")
	v.Assert(st[1] == name(8), "the most frequent string first")
	at := 2
	if uses > 1 {
		v.Assert(st[2] == name(7), "then the next")
		at = 3
	}
	v.Assert(st[at] == x, "then the others by content")
	for i := at + 1; i < len(st); i++ {
		v.Assert(st[i-1] < st[i], "by content")
		v.Assert(int(stb.GetIndex(st[i])) == i, "index")
	}
	for i := 0; i <= at; i++ {
		v.Assert(int(stb.GetIndex(st[i])) == i, "index")
	}
	v.Reach("done")
}

// H_tag_many: more tags on one entity than a byte can count.
func H_tag_many() {
	n := v.Param("tags", 300)
	x := string(v.Bytes("x", 2))
	v.Assume(x[0] < 'a')
	m := map[string]string{}
	stb := t.NewStringTableBuilder()
	for i := 0; i < n; i++ {
		m[string([]byte{byte('a' + i%25), byte('a' + i/25)})] = "v"
	}
	m["x"] = x
	stb.AddMap(m)
	stb.Finalize()
	st := stb.ToStringTable().S
	ks, vs := stb.ToKeyVals(m)
	lin := stb.ToKeyValLinear(m)
	v.Assert(len(ks) == n+1 && len(vs) == n+1 && len(lin) == 2*n+2, "one pair per tag")
	for i := range ks {
		k, val := st[ks[i]], st[vs[i]]
		if k == "x" {
			v.Assert(val == x, "the map's pair")
		} else {
			v.Assert(val == "v", "the map's pair")
		}
		v.Assert(i == 0 || st[ks[i-1]] < k, "sorted by key")
		v.Assert(lin[2*i] > 0 && st[lin[2*i]] == k && st[lin[2*i+1]] == st[vs[i]], "the same pairs in the linear list, where 0 is no key")
	}
	v.Reach("done")
}
