// Package simnet replaces what opens sockets. TLS is left out: an https listener speaks plain HTTP,
// after its certificate and key have been loaded and checked as usual.
package simnet

import (
	"crypto/tls"
	"net"
	"net/http"

	"rodbsim/simos"
	"rodbsim/simrt"
)

func Listen(network, address string) (net.Listener, error) { return simrt.Listen(network, address) }

func ListenAndServe(address string, h http.Handler) error {
	return Server_ListenAndServe(&http.Server{Addr: address, Handler: h})()
}

func ListenAndServeTLS(address, cert, key string, h http.Handler) error {
	return Server_ListenAndServeTLS(&http.Server{Addr: address, Handler: h})(cert, key)
}

func Serve(l net.Listener, h http.Handler) error { return (&http.Server{Handler: h}).Serve(l) }

func ServeTLS(l net.Listener, h http.Handler, cert, key string) error {
	return Server_ServeTLS(&http.Server{Handler: h})(l, cert, key)
}

func Server_ListenAndServe(s *http.Server) func() error {
	return func() error {
		a := s.Addr
		if a == "" {
			a = ":http"
		}
		l, err := Listen("tcp", a)
		if err != nil {
			return err
		}
		return s.Serve(l)
	}
}

func Server_ListenAndServeTLS(s *http.Server) func(cert, key string) error {
	return func(cert, key string) error {
		l, err := Listen("tcp", s.Addr)
		if err != nil {
			return err
		}
		defer l.Close()
		return Server_ServeTLS(s)(l, cert, key)
	}
}

func hasCert(c *tls.Config) bool {
	return c != nil && (len(c.Certificates) > 0 || c.GetCertificate != nil || c.GetConfigForClient != nil)
}

func Server_ServeTLS(s *http.Server) func(l net.Listener, cert, key string) error {
	return func(l net.Listener, cert, key string) error {
		if !hasCert(s.TLSConfig) || cert != "" || key != "" {
			if _, err := LoadX509KeyPair(cert, key); err != nil {
				return err
			}
		}
		return s.Serve(l)
	}
}

func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	c, err := simos.ReadFile(cert)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := simos.ReadFile(key)
	if err != nil {
		return tls.Certificate{}, err
	}
	return tls.X509KeyPair(c, k)
}

func NewListener(inner net.Listener, config *tls.Config) net.Listener { return inner }
