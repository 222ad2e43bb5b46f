package main

import (
	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// H_embed_int: the reserved-width prefix over every length.
func H_embed_int() {
	n := v.Int("n", 0, 1<<62)
	w := v.Choose("width", 4) + 1
	b := v.Bytes("b", w+1)
	tailByte := b[w]
	p := v.Panics(func() {
		switch w {
		case 1:
			pb.EmbedInt128(b, n)
		case 2:
			pb.EmbedInt16384(b, n)
		case 3:
			pb.EmbedInt2097152(b, n)
		case 4:
			pb.EmbedInt268435456(b, n)
		}
	})
	fits := n < 1<<(7*uint(w))
	v.Assert(p == !fits, "a length that does not fit is refused, any other accepted")
	v.Assert(b[w] == tailByte, "only the reserved bytes are written")
	if !p {
		at := 0
		x, wn, ok := refDecode(b, 0)
		v.Assert(ok && x == uint64(n) && wn == w, "prefix is the standard varint of the length, in the reserved width")
		v.Assert(pb.DecodeVarInt(b, &at) == uint64(n) && at == w, "prefix decodes to the length")
		v.Reach("fits")
	} else {
		v.Reach("refused")
	}
}

func embedBy(w int, id uint64, e pb.Embedder, buf []byte) []byte {
	switch w {
	case 1:
		return pb.Embed128(id, e, buf)
	case 2:
		return pb.Embed16384(id, e, buf)
	case 3:
		return pb.Embed2097152(id, e, buf)
	}
	return pb.Embed268435456(id, e, buf)
}

// H_embed: a whole section with its tag, any preceding content, payloads around the limits.
func H_embed() {
	w := v.Choose("width", 4) + 1
	pre := v.Choose("pre", 3)
	id := uint64(v.Int("id", 1, 1<<28))
	var n int
	switch v.Choose("size", 4) {
	case 0:
		n = v.Choose("small", 4)
	case 1:
		n = 126 + v.Choose("at 128", 4)
	case 2:
		if v.Param("big", 0) == 0 && w > 2 {
			v.Assume(false)
		}
		n = 16382 + v.Choose("at 16384", 4)
	case 3:
		v.Assume(v.Param("big", 0) != 0 && w == 3)
		n = 2097151 + v.Choose("at 2097152", 2)
	}
	buf := v.Bytes("prefix", pre)
	// with and without room to append in place
	if v.Choose("room", 2) == 1 {
		nb := make([]byte, pre, pre+200)
		copy(nb, buf)
		buf = nb
	}
	orig := append([]byte(nil), buf...)
	pay := make([]byte, n)
	first, last := v.Byte("first"), v.Byte("last")
	if n > 0 {
		pay[0] = first
		pay[n-1] = last
	}
	var out []byte
	p := v.Panics(func() {
		out = embedBy(w, id, func(b []byte) []byte { return append(b, pay...) }, buf)
	})
	v.Assert(p == (n >= 1<<(7*uint(w))), "refused exactly when the section is too long")
	if p {
		v.Reach("refused")
		return
	}
	for i := range orig {
		v.Assert(out[i] == orig[i], "earlier bytes kept")
	}
	tag, tn, ok := refDecode(out, pre)
	v.Assert(ok && tag == id<<3|2, "tag is the field id with the length-delimited type")
	ln, lw, ok := refDecode(out, pre+tn)
	v.Assert(ok && ln == uint64(n), "length prefix is the number of payload bytes")
	v.Assert(lw == w && len(out) == pre+tn+lw+n, "nothing else is written")
	if n > 0 {
		at := pre + tn + lw
		v.Assert(out[at+n-1] == last, "payload ends as produced")
		if n > 1 {
			v.Assert(out[at] == first, "payload begins as produced")
		}
	}
	v.Reach("embedded")
}

// H_embed_nested: sections inside sections, as primitive blocks are written.
func H_embed_nested() {
	k := v.Choose("inner", 3)
	in := v.Bytes("in", k)
	w1, w2 := v.Choose("outer width", 4)+1, v.Choose("inner width", 4)+1
	out := embedBy(w1, 3, func(b []byte) []byte {
		b = pb.EncodeIdVarInt(b, 1, uint64(v.Byte("scalar")))
		b = embedBy(w2, 4, func(b []byte) []byte { return append(b, in...) }, b)
		return append(b, 0x7f)
	}, nil)
	at := 0
	v.Assert(pb.DecodeVarInt(out, &at) == 3<<3|2, "outer tag")
	body := pb.DecodeBytes(out, &at)
	v.Assert(at == len(out), "outer length")
	at = 0
	v.Assert(pb.DecodeVarInt(body, &at) == 1<<3, "scalar tag")
	pb.DecodeVarInt(body, &at)
	v.Assert(pb.DecodeVarInt(body, &at) == 4<<3|2, "inner tag")
	inner := pb.DecodeBytes(body, &at)
	v.Assert(len(inner) == k && at == len(body)-1 && body[at] == 0x7f, "inner length")
	for i := range in {
		v.Assert(inner[i] == in[i], "inner content")
	}
	v.Reach("done")
}

// H_encode_buffer: length-prefixed byte strings.
func H_encode_buffer() {
	n := []int{0, 1, 2, 127, 128, 129}[v.Choose("n", 6)]
	in := make([]byte, n)
	if n > 0 {
		in[0] = v.Byte("c")
		in[n-1] = v.Byte("c")
	}
	id := uint64(v.Int("id", 1, 1<<28))
	var out []byte
	tag := true
	switch v.Choose("form", 3) {
	case 0:
		out = pb.EncodeBuffer([]byte{9}, in)
		tag = false
	case 1:
		out = pb.EncodeIdBuffer([]byte{9}, id, in)
	case 2:
		out = pb.EncodeString([]byte{9}, string(in))
		tag = false
	}
	v.Assert(out[0] == 9, "earlier bytes kept")
	at := 1
	if tag {
		v.Assert(pb.DecodeVarInt(out, &at) == id<<3|2, "tag")
	}
	at2, at3 := at, at
	got := pb.DecodeBytes(out, &at)
	v.Assert(len(got) == n && at == len(out), "length")
	s := pb.DecodeString(out, &at2)
	v.Assert(len(s) == n && at2 == at, "string length")
	pb.SkipBytes(out, &at3)
	v.Assert(at3 == at, "skipping passes exactly the field")
	if n > 0 {
		v.Assert(got[0] == in[0] && got[n-1] == in[n-1] && s[n-1] == in[n-1], "content")
	}
	v.Reach("done")
}
