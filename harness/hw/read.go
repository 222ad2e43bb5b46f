package hw

// Reading protobuf and PBF, independently of the repository.

// Fld is one field of a message.
type Fld struct {
	ID, Typ, Num uint64
	B            []byte
}

// GetVar reads a varint.
func GetVar(b []byte) (x uint64, n int, ok bool) {
	for n < len(b) && n < 10 {
		c := b[n]
		x |= uint64(c&0x7f) << uint(7*n)
		n++
		if c < 0x80 {
			return x, n, true
		}
	}
	return 0, 0, false
}

// Parse splits a message into its fields.
func Parse(b []byte) (fs []Fld, ok bool) {
	for len(b) > 0 {
		t, n, ok := GetVar(b)
		if !ok {
			return nil, false
		}
		b = b[n:]
		f := Fld{ID: t >> 3, Typ: t & 7}
		x, n, ok := GetVar(b)
		if !ok {
			return nil, false
		}
		b = b[n:]
		switch f.Typ {
		case 0:
			f.Num = x
		case 2:
			if x > uint64(len(b)) {
				return nil, false
			}
			f.B, b = b[:x], b[x:]
		default:
			return nil, false
		}
		fs = append(fs, f)
	}
	return fs, true
}

// Nums reads a packed list.
func Nums(b []byte) (xs []uint64, ok bool) {
	for len(b) > 0 {
		x, n, ok := GetVar(b)
		if !ok {
			return nil, false
		}
		xs, b = append(xs, x), b[n:]
	}
	return xs, true
}

// Deltas reads a packed list of zigzag deltas.
func Deltas(b []byte) (xs []int64, ok bool) {
	us, ok := Nums(b)
	last := int64(0)
	for _, u := range us {
		last += Unzig(u)
		xs = append(xs, last)
	}
	return xs, ok
}

// Fr is one block of a file.
type Fr struct {
	Typ  string
	Blob []byte
}

// Frames splits a file into its blocks.
func Frames(b []byte) (out []Fr, ok bool) {
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, false
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		b = b[4:]
		if n > len(b) {
			return nil, false
		}
		fs, ok := Parse(b[:n])
		if !ok {
			return nil, false
		}
		b = b[n:]
		var fr Fr
		size := uint64(0)
		for _, f := range fs {
			switch f.ID {
			case 1:
				fr.Typ = string(f.B)
			case 3:
				size = f.Num
			}
		}
		if size > uint64(len(b)) {
			return nil, false
		}
		fr.Blob, b = b[:size], b[size:]
		out = append(out, fr)
	}
	return out, true
}

// RawData is the content of an uncompressed blob.
func RawData(blob []byte) ([]byte, bool) {
	fs, ok := Parse(blob)
	if !ok || len(fs) != 1 || fs[0].ID != 1 || fs[0].Typ != 2 {
		return nil, false
	}
	return fs[0].B, true
}

// Item is one message of a group: dense nodes (2), a way (3) or a relation (4).
type Item struct {
	Kind uint64
	B    []byte
}

// Blk is a primitive block taken apart.
type Blk struct {
	ST                [][]byte
	Gran, Date        int64
	LatOff, LonOff    int64
	Groups            [][]Item
	HasST, Unexpected bool
}

// ParseBlock takes a primitive block apart.
func ParseBlock(b []byte) (k Blk, ok bool) {
	k.Gran, k.Date = 100, 1000
	fs, ok := Parse(b)
	if !ok {
		return k, false
	}
	for _, f := range fs {
		switch f.ID {
		case 1:
			k.HasST = true
			ss, ok := Parse(f.B)
			if !ok {
				return k, false
			}
			for _, s := range ss {
				if s.ID != 1 || s.Typ != 2 {
					return k, false
				}
				k.ST = append(k.ST, s.B)
			}
		case 2:
			ms, ok := Parse(f.B)
			if !ok {
				return k, false
			}
			var g []Item
			for _, m := range ms {
				if m.Typ != 2 {
					return k, false
				}
				g = append(g, Item{m.ID, m.B})
			}
			k.Groups = append(k.Groups, g)
		case 17:
			k.Gran = int64(int32(f.Num))
		case 18:
			k.Date = int64(int32(f.Num))
		case 19:
			k.LatOff = int64(f.Num)
		case 20:
			k.LonOff = int64(f.Num)
		default:
			k.Unexpected = true
		}
	}
	return k, !k.Unexpected
}

// SameFrame is true if what surrounds the groups of two blocks is the same.
func SameFrame(a, b Blk) bool {
	return EqByteLists(a.ST, b.ST) && a.Gran == b.Gran && a.Date == b.Date && a.LatOff == b.LatOff && a.LonOff == b.LonOff
}

// EqByteLists compares lists of byte strings.
func EqByteLists(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = eq && EqBytes(a[i], b[i])
	}
	return eq
}

// W is a way taken apart.
type W struct {
	ID         int64
	Keys, Vals []uint64
	Refs       []int64
}

// ParseWay takes a way apart.
func ParseWay(b []byte) (w W, ok bool) {
	fs, ok := Parse(b)
	if !ok {
		return w, false
	}
	good := true
	for _, f := range fs {
		ok := true
		switch f.ID {
		case 1:
			w.ID = int64(f.Num)
		case 2:
			w.Keys, ok = Nums(f.B)
		case 3:
			w.Vals, ok = Nums(f.B)
		case 8:
			w.Refs, ok = Deltas(f.B)
		default:
			ok = false
		}
		good = good && ok
	}
	return w, good
}

// R is a relation taken apart.
type R struct {
	ID                int64
	Keys, Vals, Roles []uint64
	Mem               []int64
	Types             []uint64
}

// ParseRelation takes a relation apart.
func ParseRelation(b []byte) (r R, ok bool) {
	fs, ok := Parse(b)
	if !ok {
		return r, false
	}
	good := true
	for _, f := range fs {
		ok := true
		switch f.ID {
		case 1:
			r.ID = int64(f.Num)
		case 2:
			r.Keys, ok = Nums(f.B)
		case 3:
			r.Vals, ok = Nums(f.B)
		case 8:
			r.Roles, ok = Nums(f.B)
		case 9:
			r.Mem, ok = Deltas(f.B)
		case 10:
			r.Types, ok = Nums(f.B)
		default:
			ok = false
		}
		good = good && ok
	}
	return r, good
}

// D is dense nodes taken apart.
type D struct {
	IDs, Lat, Lon []int64
	KV            []uint64
}

// ParseDense takes dense nodes apart.
func ParseDense(b []byte) (d D, ok bool) {
	fs, ok := Parse(b)
	if !ok {
		return d, false
	}
	good := true
	for _, f := range fs {
		ok := true
		switch f.ID {
		case 1:
			d.IDs, ok = Deltas(f.B)
		case 8:
			d.Lat, ok = Deltas(f.B)
		case 9:
			d.Lon, ok = Deltas(f.B)
		case 10:
			d.KV, ok = Nums(f.B)
		default:
			ok = false
		}
		good = good && ok
	}
	return d, good
}
