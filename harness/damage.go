package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"strings"

	zz "ZZMODULE/zzsim/zz"
)

// damageInner changes the records inside a compressed cache file. If the file
// is not laid out as expected (another format), it is left alone.
func damageInner(d *Damage, p string, data []byte, r *zz.Rng, x *Exec) []byte {
	if d.Mode == "stray" {
		// what several killed processes left behind beside the cache
		base := strings.TrimSuffix(p, ".gz")
		for i := int64(0); i < 1+d.N%5; i++ {
			name := fmt.Sprintf("%s.%d", base, pick(r, 2+r.Intn(900), 1000+r.Intn(4)))
			if r.P(.5) {
				name += ".gz"
			}
			x.fs.Put(name, append([]byte(nil), data[:r.Intn(len(data)+1)]...))
		}
		return nil
	}
	zr, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil
	}
	raw, err := io.ReadAll(zr)
	if err != nil {
		return nil
	}
	var frames [][]byte
	for rest := raw; len(rest) > 0; {
		if len(rest) < 4 {
			return nil
		}
		n := int(binary.LittleEndian.Uint32(rest))
		if n <= 0 || len(rest) < 4+n {
			return nil
		}
		frames = append(frames, rest[:4+n])
		rest = rest[4+n:]
	}
	if len(frames) == 0 {
		return nil
	}
	x.stats["damaged records"]++
	k := r.Intn(len(frames))
	var out []byte
	switch d.Mode {
	case "inner-trunc": // the last record is incomplete
		cut := 1 + int(int64(len(raw)-1)*d.At/1000)
		out = raw[:min(cut, len(raw)-1)]
	case "inner-cutrec": // one record lost its end, others follow
		for i, f := range frames {
			if i == k {
				f = f[:len(f)-1-r.Intn(len(f)-1)]
			}
			out = append(out, f...)
		}
	case "inner-dup":
		for i, f := range frames {
			out = append(out, f...)
			if i == k {
				out = append(out, f...)
			}
		}
	case "inner-double":
		out = append(append(out, raw...), raw...)
	case "inner-badlen":
		out = append(out, raw...)
		off := 0
		for i := 0; i < k; i++ {
			off += len(frames[i])
		}
		v := []uint32{0, 1, uint32(len(frames[k])), uint32(len(raw)), 1 << 20, 1 << 25, 1<<30 + 7, 1<<32 - 1}[r.Intn(8)]
		binary.LittleEndian.PutUint32(out[off:], v)
	case "inner-tail":
		out = append(out, raw...)
		for i := int64(0); i < d.N; i++ {
			out = append(out, byte(r.U64()))
		}
	case "inner-zerotail":
		out = append(out, raw...)
		out = append(out, make([]byte, d.N)...)
	case "leftover", "leftover-cut", "leftover-dup":
		// an uncompressed working file as a crash leaves it behind
		b := append([]byte(nil), raw...)
		switch d.Mode {
		case "leftover-cut":
			b = b[:int(int64(len(b))*d.At/1000)]
		case "leftover-dup":
			b = append(b, raw...)
		}
		x.fs.Put(strings.TrimSuffix(p, ".gz"), b)
		if d.N%2 == 0 {
			return nil
		}
		x.fs.RemoveK(p)
		return nil
	default:
		trouble("unknown damage %q", d.Mode)
	}
	var b bytes.Buffer
	zw, _ := gzip.NewWriterLevel(&b, gzip.BestSpeed)
	zw.Write(out)
	zw.Close()
	return b.Bytes()
}
