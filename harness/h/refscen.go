package h

import (
	"bytes"
	"io"

	"verif/ref"
)

func u16def(x, d []uint16) []uint16 {
	if len(x) == 0 {
		return d
	}
	return x
}

// RefServer builds an honest reference server with the scenario's server
// configuration.  The scenario must be compatible.
func RefServer(s *Scen, rnd io.Reader) *ref.Server {
	o := s.Predict()
	cfg := ref.ServerCfg{
		Suites: u16def(U16Suites(s.SSuites), []uint16{0x1301, 0x1302}), Groups: u16def(U16Groups(s.SGroups), []uint16{23, 24, 256, 29}),
		ALPN: s.SALPN, AcceptEarly: s.EarlyS,
	}
	if s.PSK != nil && s.PSK.ServerHas {
		cfg.PSK = func(id []byte) *ref.PSK {
			if bytes.Equal(id, s.PSK.ID) {
				return &ref.PSK{ID: id, Key: s.PSK.Key, Suite: uint16(s.PSK.Suite)}
			}
			return nil
		}
		cfg.NoDHE = !o.DH
	}
	if i, _ := pickCert(s.Certs, &s.Name, def(s.CSchemes, defSchemes)); i >= 0 {
		cfg.Ident = s.Certs[i].Ident()
	}
	if s.ClientAuth {
		cfg.RequestCert = U16Schemes(def(s.SSchemes, defSchemes))
	}
	if o.HRR {
		cfg.Cookie = append([]byte{1}, s.AppCookie...)
	}
	return ref.NewServer(cfg, rnd, s.DTLS)
}

// RefClient builds an honest reference client with the scenario's client
// configuration; it is not started.
func RefClient(s *Scen, rnd io.Reader) *ref.Client {
	cfg := ref.ClientCfg{
		ServerName: s.Name, Suites: u16def(U16Suites(s.CSuites), []uint16{0x1301, 0x1302}), Groups: u16def(U16Groups(s.CGroups), []uint16{23, 29}),
		SigAlgs: U16Schemes(def(s.CSchemes, defSchemes)), ALPN: s.CALPN,
	}
	for _, m := range def(s.CModes, defModes) {
		cfg.Modes = append(cfg.Modes, byte(m))
	}
	if s.PSK != nil {
		p := &ref.PSK{ID: s.PSK.ID, Key: s.PSK.Key, Suite: uint16(s.PSK.Suite)}
		cfg.PSKs = []*ref.PSK{p}
		var n []uint16
		for _, c := range cfg.Suites {
			if ref.SuiteByID(c).Hash == ref.SuiteByID(p.Suite).Hash {
				n = append(n, c)
			}
		}
		cfg.Suites = n
		cfg.Early = s.EarlyC
	}
	if i, a := pickCert(s.ClientCerts, nil, def(s.SSchemes, defSchemes)); i >= 0 {
		cfg.Ident = s.ClientCerts[i].Ident()
		cfg.IdentScheme = uint16(a)
	}
	return ref.NewClient(cfg, rnd, s.DTLS)
}
