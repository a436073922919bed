// c30 explores what mail and account servers can answer, and decides what the
// mix client makes of it.
package main

import (
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"sync"
	"time"

	"github.com/mutecomm/mute/mix/client"
	vk "github.com/mutecomm/mute/verifkit"
)

var r *vk.R

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// authority signs certificates of servers.
type authority struct {
	cert *x509.Certificate
	key  ed25519.PrivateKey
	pem  []byte
	mu   sync.Mutex
	n    int64
}

func newAuthority(name string) *authority {
	pub, key, err := ed25519.GenerateKey(&vk.CtrRand{Seed: name})
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
	t.Subject.CommonName = name
	b, err := x509.CreateCertificate(&vk.CtrRand{Seed: name + "c"}, t, t, pub, key)
	must(err)
	c, err := x509.ParseCertificate(b)
	must(err)
	return &authority{cert: c, key: key, pem: pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}), n: 1}
}

// leaf makes the certificate of a server.
func (a *authority) leaf(addr net.Addr) tls.Certificate {
	ip := addr.(*net.TCPAddr).IP
	a.mu.Lock()
	a.n++
	n := a.n
	a.mu.Unlock()
	pub, key, err := ed25519.GenerateKey(&vk.CtrRand{Seed: fmt.Sprint("leaf", n)})
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(n), IPAddresses: []net.IP{ip}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
	b, err := x509.CreateCertificate(&vk.CtrRand{Seed: fmt.Sprint("leafc", n)}, t, a.cert, pub, a.key)
	must(err)
	return tls.Certificate{Certificate: [][]byte{b}, PrivateKey: key}
}

var ca, other *authority

// servers by address; every case has its own.
var (
	srvMu   sync.Mutex
	servers = map[string]interface{}{}
	nextIP  = 1
)

func register(s interface{}) string {
	srvMu.Lock()
	defer srvMu.Unlock()
	nextIP++
	ip := fmt.Sprintf("127.%d.%d.%d", 1+nextIP>>14, nextIP>>7&127, 1+nextIP&127)
	servers[ip] = s
	return ip
}

func unregister(ip string) {
	srvMu.Lock()
	defer srvMu.Unlock()
	delete(servers, ip)
}

func server(ip string) interface{} {
	srvMu.Lock()
	defer srvMu.Unlock()
	return servers[ip]
}

func main() {
	log.SetOutput(ioutil.Discard)
	r = vk.Start("C30")
	defer r.Done()
	ca, other = newAuthority("the CA"), newAuthority("another CA")
	// the certificates the system trusts
	dir, err := ioutil.TempDir("", "c30")
	must(err)
	defer os.RemoveAll(dir)
	must(ioutil.WriteFile(dir+"/ca.pem", ca.pem, 0600))
	os.Setenv("SSL_CERT_FILE", dir+"/ca.pem")
	os.Setenv("SSL_CERT_DIR", dir+"/none")

	l, err := net.Listen("tcp4", "0.0.0.0:0")
	must(err)
	smtpPort = l.Addr().(*net.TCPAddr).Port
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, ok := server(c.LocalAddr().(*net.TCPAddr).IP.String()).(*session)
			if !ok {
				c.Close()
				continue
			}
			go s.serve(c, ca)
		}
	}()
	h, err := net.Listen("tcp4", "0.0.0.0:0")
	must(err)
	client.RPCPort = fmt.Sprint(h.Addr().(*net.TCPAddr).Port)
	client.DefaultAccountServer = "127.0.0.1"
	client.GetMixAddress = func(a string) (string, error) { return a + ":" + client.RPCPort, nil }
	hs := &http.Server{Handler: http.HandlerFunc(serveHTTP), ErrorLog: log.New(ioutil.Discard, "", 0)}
	hs.SetKeepAlivesEnabled(false)
	go hs.Serve(tls.NewListener(h, &tls.Config{GetCertificate: func(hi *tls.ClientHelloInfo) (*tls.Certificate, error) {
		a := ca
		if s, ok := server(hi.Conn.LocalAddr().(*net.TCPAddr).IP.String()).(*account); ok && s.badCert {
			a = other
		}
		c := a.leaf(hi.Conn.LocalAddr())
		return &c, nil
	}}))
	accounts()
	mails()
}
