package h

import (
	"bytes"

	"verif/ref"
)

// HelloMsgs returns the bodies of the cleartext handshake messages of the
// given type in what one endpoint wrote; a DTLS message that was retransmitted
// (timers run in real time outside a bubble) counts once.
func HelloMsgs(log [][]byte, dtls bool, typ byte) [][]byte {
	var out [][]byte
	if dtls {
		var cur []byte
		seen := map[string]bool{}
		for _, b := range log {
			for len(b) >= 13 && b[0] == 22 && b[3] == 0 && b[4] == 0 {
				n := int(b[11])<<8 | int(b[12])
				if len(b) < 13+n {
					break
				}
				f := b[13 : 13+n]
				b = b[13+n:]
				if len(f) <= 12 || f[0] != typ {
					continue
				}
				// Fragments in order; anything else starts over.
				if off := int(f[6])<<16 | int(f[7])<<8 | int(f[8]); off == 0 {
					cur = nil
				} else if off != len(cur) {
					continue
				}
				cur = append(cur, f[12:]...)
				if len(cur) == int(f[1])<<16|int(f[2])<<8|int(f[3]) {
					if id := string(f[4:6]) + string(cur); !seen[id] {
						seen[id] = true
						out = append(out, cur)
					}
					cur = nil
				}
			}
		}
		return out
	}
	var hs []byte
	buf := bytes.Join(log, nil)
	for {
		raw, rest := ref.SplitTLS(buf)
		if raw == nil {
			break
		}
		buf = rest
		if raw[0] == 22 {
			hs = append(hs, raw[5:]...)
		}
	}
	for len(hs) >= 4 {
		n := int(hs[1])<<16 | int(hs[2])<<8 | int(hs[3])
		if len(hs) < 4+n {
			break
		}
		if hs[0] == typ {
			out = append(out, hs[4:4+n])
		}
		hs = hs[4+n:]
	}
	return out
}

// ServerHellos returns what a server sent: whether a retry request, and the
// ServerHello proper (nil if none).
func ServerHellos(log [][]byte, dtls bool) (hrrs int, sh *ref.SH) {
	for _, b := range HelloMsgs(log, dtls, 2) {
		x, err := ref.ParseSH(b)
		if err != nil {
			continue
		}
		if x.IsHRR() {
			hrrs++
		} else {
			sh = x
		}
	}
	return
}

// SHGroup returns the group of a ServerHello's key share, 0 if it has none.
func SHGroup(sh *ref.SH) uint16 {
	d, ok := ref.FindExt(sh.Exts, ref.XKeyShare)
	if !ok || len(d) < 2 {
		return 0
	}
	return uint16(d[0])<<8 | uint16(d[1])
}
