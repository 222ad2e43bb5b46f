package hw

import "github.com/squizzling/osmindex/internal/t"

func EqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func EqI64s(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	d := int64(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

func EqU64s(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	d := uint64(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

func EqU32s(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	d := uint32(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

func EqI32s(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	d := int32(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

func EqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func EqDense(a, b *t.DenseNodes) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return EqI64s(a.Id, b.Id) && EqI64s(a.Lat, b.Lat) && EqI64s(a.Lon, b.Lon) && EqI32s(a.KeyVals, b.KeyVals)
}

func EqWay(a, b *t.Way) bool {
	return a.ID == b.ID && EqU32s(a.Keys, b.Keys) && EqU32s(a.Vals, b.Vals) && EqI64s(a.Refs, b.Refs)
}

func EqRelation(a, b *t.Relation) bool {
	return a.ID == b.ID && EqU32s(a.Keys, b.Keys) && EqU32s(a.Vals, b.Vals) && EqI32s(a.RolesSID, b.RolesSID) &&
		EqI64s(a.MemIDs, b.MemIDs) && EqU64s(a.MemberType, b.MemberType)
}

func eqRaws(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !EqBytes(a[i], b[i]) {
			return false
		}
	}
	return true
}

func EqGroup(a, b *t.PrimitiveGroup) bool {
	if !EqDense(a.Dense, b.Dense) || len(a.Ways) != len(b.Ways) || len(a.Relations) != len(b.Relations) {
		return false
	}
	for i := range a.Ways {
		if !EqWay(a.Ways[i], b.Ways[i]) {
			return false
		}
	}
	for i := range a.Relations {
		if !EqRelation(a.Relations[i], b.Relations[i]) {
			return false
		}
	}
	return EqBytes(a.RawDense, b.RawDense) && eqRaws(a.RawWays, b.RawWays) && eqRaws(a.RawRelations, b.RawRelations)
}

func EqStringTable(a, b *t.StringTable) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return EqStrs(a.S, b.S)
}

func EqBlock(a, b *t.PrimitiveBlock) bool {
	if !EqStringTable(a.StringTable, b.StringTable) || !EqBytes(a.StringTableRaw, b.StringTableRaw) {
		return false
	}
	if a.Granularity != b.Granularity || a.DateGranularity != b.DateGranularity || a.LatOffset != b.LatOffset || a.LonOffset != b.LonOffset {
		return false
	}
	if len(a.PrimitiveGroup) != len(b.PrimitiveGroup) {
		return false
	}
	for i := range a.PrimitiveGroup {
		if !EqGroup(a.PrimitiveGroup[i], b.PrimitiveGroup[i]) {
			return false
		}
	}
	return true
}

func EqBlob(a, b *t.Blob) bool {
	if (a.RawSize == nil) != (b.RawSize == nil) || a.RawSize != nil && *a.RawSize != *b.RawSize {
		return false
	}
	return EqBytes(a.Raw, b.Raw) && EqBytes(a.ZLibData, b.ZLibData)
}
