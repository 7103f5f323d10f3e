package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"
)

// authority is a certificate authority
type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

var serial int64

func newAuthority(name string) *authority {
	a := &authority{}
	a.key, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour), KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &a.key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	a.cert, _ = x509.ParseCertificate(der)
	a.pem = pem.EncodeToMemory(&pem.Block{Type: `CERTIFICATE`, Bytes: der})
	return a
}

// issue returns a certificate and its key
func (a *authority) issue(name string) (cert, key []byte) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		DNSNames: []string{name}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv4(127, 0, 0, 2)}}
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &k.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	kb, _ := x509.MarshalECPrivateKey(k)
	return pem.EncodeToMemory(&pem.Block{Type: `CERTIFICATE`, Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: `EC PRIVATE KEY`, Bytes: kb})
}

// freePort returns a port nothing listens on
func freePort() int {
	l, err := net.Listen(`tcp`, `127.0.0.1:0`)
	if err != nil {
		panic(err)
	}
	defer func() { _ = l.Close() }()
	return l.Addr().(*net.TCPAddr).Port
}

// get makes a request. The text is that of the error, or the code and the body.
func get(scheme, host string, port int, path string, server *authority, client *tls.Certificate) string {
	tr := &http.Transport{DisableKeepAlives: true, Proxy: nil}
	if scheme == `https` {
		roots := x509.NewCertPool()
		roots.AddCert(server.cert)
		tr.TLSClientConfig = &tls.Config{RootCAs: roots}
		if client != nil {
			tr.TLSClientConfig.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return client, nil }
		}
	}
	c := &http.Client{Transport: tr, Timeout: 10 * time.Second}
	r, err := c.Get(fmt.Sprintf(`%s://%s:%d%s`, scheme, host, port, path))
	if err != nil {
		return `no reply`
	}
	defer func() { _ = r.Body.Close() }()
	bs, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return `no reply`
	}
	return strings.TrimSpace(strconv.Itoa(r.StatusCode) + ` ` + strings.TrimSpace(string(bs)))
}

// start starts the server with the given arguments and waits until it listens or has failed. The result is the error.
func (h *H) start(in, host string, port int, args []string) string {
	ended := make(chan string, 1)
	cmd := newCommand()
	cmd.SetArgs(args)
	cmd.SilenceErrors, cmd.SilenceUsage = true, true
	cmd.SetOut(ioutil.Discard)
	cmd.SetErr(ioutil.Discard)
	go func() {
		r := try(func() interface{} {
			if err := cmd.Execute(); err != nil {
				panic(err)
			}
			return nil
		})
		ended <- r.text()
	}()
	for i := 0; i < 1500; i++ {
		select {
		case e := <-ended:
			return e
		default:
		}
		if c, err := net.DialTimeout(`tcp`, fmt.Sprintf(`%s:%d`, host, port), time.Second); err == nil {
			_ = c.Close()
			select {
			case e := <-ended:
				return e
			case <-time.After(20 * time.Millisecond):
			}
			return ``
		}
		time.Sleep(10 * time.Millisecond)
	}
	h.fail(in, "the server does not listen and does not fail", "it does one of them")
	return ``
}

func TestC31(t *testing.T) {
	h := newH(t, "the server started with combinations of addresses, variables, certificates, authorities and client verification, asked by clients without a certificate and with certificates of two authorities; distinct by the arguments")
	dir, err := ioutil.TempDir(``, `serve`)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	file := func(name string, bs []byte) string {
		n := filepath.Join(dir, name)
		if err := ioutil.WriteFile(n, bs, 0o600); err != nil {
			t.Fatal(err)
		}
		return n
	}
	file(`a.yaml`, nil)
	_ = os.Mkdir(filepath.Join(dir, `data`), 0o700)
	_ = os.Setenv(`VERIF_SERVE`, `from the environment`)
	cfg := file(`hiera.yaml`, []byte("version: 5\nhierarchy:\n  - name: L\n    path: a.yaml\n"))
	cfg2 := file(`other.yaml`, []byte("version: 5\nhierarchy:\n  - name: L\n    path: b.yaml\n"))
	bad := file(`bad.yaml`, []byte("version: 4\n"))
	_ = bad
	file(`data/a.yaml`, []byte("k: in a %{v1}%{v9}\n"))
	file(`data/b.yaml`, []byte("k: in b %{v1}%{v9}\n"))
	vars := file(`vars.yaml`, []byte("v9: nine\n"))
	one, two := newAuthority(`one`), newAuthority(`two`)
	sc, sk := one.issue(`server`)
	cert, key := file(`server.pem`, sc), file(`server.key`, sk)
	_, wk := one.issue(`wrong`)
	wrongKey := file(`wrong.key`, wk)
	ca1, ca2 := file(`one.pem`, one.pem), file(`two.pem`, two.pem)
	both := file(`both.pem`, append(append([]byte{}, one.pem...), two.pem...))
	noCa, junk, missing := file(`noca.pem`, sk), file(`junk.pem`, []byte(`junk`)), filepath.Join(dir, `missing.pem`)
	clients := map[string]*tls.Certificate{`no certificate`: nil}
	for n, a := range map[string]*authority{`a certificate of the first authority`: one, `a certificate of the second authority`: two} {
		c, k := a.issue(`client`)
		p, err := tls.X509KeyPair(c, k)
		if err != nil {
			t.Fatal(err)
		}
		clients[n] = &p
	}
	names := []string{`no certificate`, `a certificate of the first authority`, `a certificate of the second authority`}

	certs := []string{``, cert, missing, junk}
	keys := []string{``, key, missing, junk, wrongKey}
	cas := []string{``, ca1, ca2, both, missing, junk, noCa}
	usable := func(f string) bool { return f == ca1 || f == ca2 || f == both }
	type setting struct {
		cert, key, ca string
		verify        bool
	}
	var all []setting
	for _, c := range certs {
		for _, k := range keys {
			for _, a := range cas {
				for _, v := range []bool{false, true} {
					all = append(all, setting{c, k, a, v})
				}
			}
		}
	}
	// the interesting ones first
	first := []setting{{}, {cert, key, ``, false}, {cert, key, ca1, true}, {cert, key, ca2, true}, {cert, key, both, true}, {cert, key, ca1, false}, {cert, key, ``, true},
		{cert, ``, ``, false}, {``, key, ``, false}, {missing, key, ``, false}, {cert, missing, ``, false}, {cert, wrongKey, ``, false}, {junk, key, ``, false},
		{cert, key, missing, true}, {cert, key, junk, true}, {cert, key, noCa, false}, {``, ``, ca1, true}, {cert, key, missing, false}}
	n, busy := 0, 0
	log.SetOutput(ioutil.Discard)
	for h.more(len(first) + 40) {
		var s setting
		if n < len(first) {
			s = first[n]
		} else {
			s = all[h.n_(len(all))]
		}
		n++
		port := freePort()
		host := `127.0.0.1`
		args := []string{`--port`, strconv.Itoa(port)}
		if h.one(4) {
			host = `127.0.0.2`
		}
		if !h.one(4) || host == `127.0.0.2` {
			args = append(args, `--addr`, host)
		}
		want := `in a `
		if h.one(3) {
			args = append(args, `--config`, cfg2)
			want = `in b `
		} else {
			args = append(args, `--config`, cfg)
		}
		if h.coin() {
			args = append(args, `--var`, `v1=one`)
			want += `one`
		}
		if h.coin() {
			args = append(args, `--vars`, vars)
			want += `nine`
		}
		if h.coin() {
			args = append(args, `--loglevel`, `debug`)
		}
		opt := func(n, v string) {
			if v != `` {
				args = append(args, n, v)
			}
		}
		opt(`--ssl-cert`, s.cert)
		opt(`--ssl-key`, s.key)
		opt(`--ca`, s.ca)
		if s.verify {
			args = append(args, `--clientCertVerify`)
		}
		in := h.c("server %s", strings.Replace(strings.Join(args, ` `), dir+`/`, ``, -1))
		h.current(in)
		secure := s.cert != `` && s.key != ``
		fails := secure && (s.cert != cert || s.key != key || s.ca != `` && !usable(s.ca))
		var taken net.Listener
		if !fails && n > len(first) && h.one(6) {
			if taken, err = net.Listen(`tcp`, fmt.Sprintf(`%s:%d`, host, port)); err != nil {
				continue
			}
			in += "\nwhile something else listens there"
			fails = true
			args = append(args, `--addr`, host)
		}
		var e string
		if taken != nil {
			e = h.startTaken(args)
			_ = taken.Close()
		} else {
			e = h.start(in, host, port, args)
			if strings.Contains(e, `already in use`) && busy < 5 {
				busy++
				continue
			}
		}
		busy = 0
		if fails != (e != ``) || fails && !strings.HasPrefix(e, `an error`) {
			h.fail(in, "the start ends with: "+e, fmt.Sprintf("an error: %v", fails))
		}
		if fails {
			continue
		}
		scheme, other := `http`, `https`
		if secure {
			scheme, other = other, scheme
		}
		if host == `127.0.0.2` {
			if r := get(scheme, `127.0.0.1`, port, `/lookup/k`, one, clients[names[1]]); r != `no reply` {
				h.fail(in+"\nGET from 127.0.0.1", r, "no reply")
			}
		}
		for _, c := range names {
			served := !secure || !s.verify || c == names[1] && (s.ca == ca1 || s.ca == both) || c == names[2] && (s.ca == ca2 || s.ca == both)
			// a certificate that is not asked for or not verified does no harm
			for _, q := range [][2]string{{`/lookup/k`, `200 "` + want + `"`}, {`/lookup/env::VERIF_SERVE`, `200 "from the environment"`}, {`/lookup/none`, `404 404 value not found`}} {
				w := q[1]
				if !served {
					w = `no reply`
				}
				if r := get(scheme, host, port, q[0], one, clients[c]); r != w {
					h.fail(in+"\nGET "+scheme+` `+q[0]+` with `+c, r, w)
				}
			}
			if r := get(other, host, port, `/lookup/k`, one, clients[c]); strings.HasPrefix(r, `200`) {
				h.fail(in+"\nGET "+other+` with `+c, r, "no reply")
			}
		}
		if secure {
			if r := get(scheme, host, port, `/lookup/k`, two, clients[names[0]]); r != `no reply` {
				h.fail(in+"\nGET by a client that trusts another authority", r, "no reply")
			}
		}
	}
}

// startTaken starts the server where something else listens; the result is its error
func (h *H) startTaken(args []string) string {
	ended := make(chan string, 1)
	cmd := newCommand()
	cmd.SetArgs(args)
	cmd.SilenceErrors, cmd.SilenceUsage = true, true
	go func() {
		ended <- try(func() interface{} {
			if err := cmd.Execute(); err != nil {
				panic(err)
			}
			return nil
		}).text()
	}()
	select {
	case e := <-ended:
		return e
	case <-time.After(10 * time.Second):
		return `no error`
	}
}
