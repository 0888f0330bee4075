package main

import (
	"encoding/binary"

	"verif/ref"
)

// A variant is what packet n of a stream is replaced by: well-framed events
// which the library cannot decode.
type variant struct {
	name string
	typ  byte // of the packet it stands for
	make func(p []byte, crc, four bool) [][]byte
}

// body is the event's content without header and checksum.
func bodyOf(p []byte, crc bool) []byte {
	b := p[19:]
	if crc {
		b = b[:len(b)-4]
	}
	return append([]byte(nil), b...)
}

// refit gives an event another type and body, its header kept otherwise.
func refit(p []byte, typ byte, body []byte, crc bool) []byte {
	return ref.Event(ref.Header{Timestamp: binary.LittleEndian.Uint32(p), Type: typ, ServerID: binary.LittleEndian.Uint32(p[5:]),
		NextPos: binary.LittleEndian.Uint32(p[13:]), Flags: binary.LittleEndian.Uint16(p[17:])}, body, crc)
}

const strangeID = 0xEEEEEE

// brokenJSON are JSON values that are stored consistently but not understood.
var brokenJSON = []struct {
	name string
	doc  []byte
}{
	{"a JSON value of an unknown type", []byte{99, 0}},
	{"a JSON value of an unsupported opaque type", []byte{15, 252, 1, 'x'}},
	{"a JSON literal of an unknown kind", []byte{4, 9}},
	{"a JSON object without its content", []byte{0, 2, 0, 60, 0}},
}

// undecodable lists the variants of a packet, by what it is.
func undecodable(p []byte) []variant {
	var vs []variant
	add := func(name string, f func(p []byte, crc, four bool) [][]byte) { vs = append(vs, variant{name, p[4], f}) }
	switch typ := p[4]; {
	case typ == ref.EvFDE:
		set := func(at int, v byte) func(p []byte, crc, four bool) [][]byte {
			return func(p []byte, _, _ bool) [][]byte {
				b := append([]byte(nil), p...)
				if at < 0 {
					at += len(b)
				}
				b[at] = v
				return [][]byte{b}
			}
		}
		add("format version 3", set(19, 3))
		add("header length 18", set(19+2+50+4, 18))
		add("checksum algorithm 2", set(-5, 2))
	case typ == ref.EvRotate:
		add("rotation with half a position", func(p []byte, crc, _ bool) [][]byte {
			return [][]byte{refit(p, ref.EvRotate, bodyOf(p, crc)[:4], crc)}
		})
	case typ == 2: // QUERY
		add("query whose database name exceeds it", func(p []byte, crc, _ bool) [][]byte {
			b := bodyOf(p, crc)
			b[8] = 255
			if n := 13 + int(binary.LittleEndian.Uint16(b[11:])) + 100; len(b) > n {
				b = b[:n]
			}
			return [][]byte{refit(p, 2, b, crc)}
		})
		add("query whose status variables exceed it", func(p []byte, crc, _ bool) [][]byte {
			b := bodyOf(p, crc)
			b[12] = 255
			return [][]byte{refit(p, 2, b, crc)}
		})
		for _, v := range [][]byte{{6}, {2}, {4, 1, 0}} { // catalog, old catalog, character set
			v := v
			add("query whose last status variable is cut off", func(p []byte, crc, _ bool) [][]byte {
				b := bodyOf(p, crc)
				n := int(binary.LittleEndian.Uint16(b[11:]))
				tail := append([]byte(nil), b[13+n:]...)
				b = append(b[:13:13], v...)
				b[11], b[12] = byte(len(v)), 0
				return [][]byte{refit(p, 2, append(b, tail...), crc)}
			})
		}
	case typ == ref.EvTableMap:
		add("table map whose metadata has a wrong length", func(p []byte, crc, four bool) [][]byte {
			// header and ids, names, column types: then the length
			b := bodyOf(p, crc)
			at := 8
			if four {
				at = 6
			}
			at += int(b[at]) + 2
			at += int(b[at]) + 2
			at += int(b[at]) + 1
			b[at]++
			return [][]byte{refit(p, ref.EvTableMap, b, crc)}
		})
	case typ >= ref.EvWriteV1 && typ <= ref.EvDeleteV1 || typ >= ref.EvWriteV2 && typ <= ref.EvDeleteV2:
		for kind := 0; kind < 3; kind++ {
			kind := kind
			v2 := typ >= ref.EvWriteV2
			word := [...]string{"insert", "update", "delete"}[kind]
			add(word+" for a table id never announced", func(p []byte, crc, four bool) [][]byte {
				r := &ref.RowsEvent{Kind: kind, V2: v2, TableID: strangeID, Four: four && !v2, Flags: 1, NCols: len(hT.a.Cols), Before: hT.rowA[:1], After: hT.rowA[:1]}
				return [][]byte{refit(p, r.EvType(), r.Body(), crc)}
			})
			for j, x := range brokenJSON {
				for side := 0; side < 2; side++ {
					if side == 1 && kind != ref.Update || j > 0 && (kind+j)%3 != 0 {
						continue
					}
					x, side := x, side
					add(word+" with "+x.name, func(p []byte, crc, four bool) [][]byte {
						z := hT.z
						good := hT.rowZ[0]
						bad := append(ref.Image(nil), good...)
						bad[2] = ref.Cell{Enc: append(ref.LE(nil, uint64(len(x.doc)), 4), x.doc...)}
						r := &ref.RowsEvent{Kind: kind, V2: v2, TableID: strangeID, Four: four && !v2, Flags: 1, NCols: len(z.Cols), Before: []ref.Image{bad}, After: []ref.Image{bad}}
						if kind == ref.Update && side == 0 {
							r.After = []ref.Image{good}
						} else if kind == ref.Update {
							r.Before = []ref.Image{good}
						}
						m := refit(p, ref.EvTableMap, ref.TableMapBody(strangeID, four, 1, z, nil), crc)
						return [][]byte{m, refit(p, r.EvType(), r.Body(), crc)}
					})
				}
			}
		}
	}
	return vs
}
