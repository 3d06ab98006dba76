package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Response is one HTTP response as a client saw it.
type Response struct {
	Status int
	Proto  string
	Header map[string][]string
	Body   []byte
	Close  bool // delimited by, or announcing, the end of the connection
}

// respParser is a strict incremental parser of a stream of HTTP/1.x responses.
type respParser struct {
	buf  []byte
	cur  *Response
	mode string // "" head; fixed chunk-size chunk-data chunk-crlf trailer eof
	left int
	err  string
}

func (p *respParser) line() (string, bool) {
	i := bytes.Index(p.buf, []byte("\n"))
	if i < 0 {
		return "", false
	}
	l := string(p.buf[:i])
	p.buf = p.buf[i+1:]
	if !strings.HasSuffix(l, "\r") {
		p.err = fmt.Sprintf("line not ended with CRLF: %q", l)
		return "", false
	}
	return l[:len(l)-1], true
}

// next returns a complete response, if there is one. eof: the server sent everything.
func (p *respParser) next(method string, eof bool) *Response {
	for p.err == "" {
		switch p.mode {
		case "":
			if p.cur == nil {
				i := bytes.Index(p.buf, []byte("\r\n\r\n"))
				if i < 0 {
					if eof && len(p.buf) > 0 {
						p.err = fmt.Sprintf("connection ended inside a response head: %q", clip(p.buf))
					}
					if len(p.buf) >= 5 && !bytes.HasPrefix(p.buf, []byte("HTTP/")) {
						p.err = fmt.Sprintf("not a response: %q", clip(p.buf))
					}
					return nil
				}
				head := string(p.buf[:i])
				p.buf = p.buf[i+4:]
				p.head(head, method)
				continue
			}
		case "fixed":
			if len(p.buf) < p.left {
				if eof {
					p.err = fmt.Sprintf("body cut: %d of %d bytes", len(p.buf), p.left)
				}
				return nil
			}
			p.cur.Body = append(p.cur.Body, p.buf[:p.left]...)
			p.buf = p.buf[p.left:]
			return p.done()
		case "chunk-size":
			l, ok := p.line()
			if !ok {
				if eof && p.err == "" {
					p.err = "chunked body cut"
				}
				return nil
			}
			n, err := strconv.ParseUint(strings.TrimSpace(strings.SplitN(l, ";", 2)[0]), 16, 31)
			if err != nil {
				p.err = fmt.Sprintf("bad chunk size %q", l)
				return nil
			}
			p.left = int(n)
			if n == 0 {
				p.mode = "trailer"
			} else {
				p.mode = "chunk-data"
			}
		case "chunk-data":
			if len(p.buf) < p.left+2 {
				if eof {
					p.err = "chunked body cut"
				}
				return nil
			}
			p.cur.Body = append(p.cur.Body, p.buf[:p.left]...)
			if string(p.buf[p.left:p.left+2]) != "\r\n" {
				p.err = "chunk not ended with CRLF"
				return nil
			}
			p.buf = p.buf[p.left+2:]
			p.mode = "chunk-size"
		case "trailer":
			l, ok := p.line()
			if !ok {
				if eof && p.err == "" {
					p.err = "chunked body cut"
				}
				return nil
			}
			if l == "" {
				return p.done()
			}
		case "eof":
			if !eof {
				return nil
			}
			p.cur.Body = p.buf
			p.buf = nil
			return p.done()
		}
	}
	return nil
}

func clip(b []byte) string {
	if len(b) > 120 {
		return string(b[:120]) + "..."
	}
	return string(b)
}

func (p *respParser) done() *Response {
	r := p.cur
	p.cur, p.mode = nil, ""
	return r
}

func (p *respParser) head(h, method string) {
	lines := strings.Split(h, "\r\n")
	f := strings.SplitN(lines[0], " ", 3)
	if len(f) < 2 || (f[0] != "HTTP/1.1" && f[0] != "HTTP/1.0") || len(f[1]) != 3 {
		p.err = fmt.Sprintf("bad status line %q", lines[0])
		return
	}
	st, err := strconv.Atoi(f[1])
	if err != nil {
		p.err = fmt.Sprintf("bad status line %q", lines[0])
		return
	}
	r := &Response{Status: st, Proto: f[0], Header: map[string][]string{}}
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 || strings.ContainsAny(l[:i], " \t") || strings.ContainsAny(l, "\r\n") {
			p.err = fmt.Sprintf("bad header line %q", l)
			return
		}
		k := strings.ToLower(l[:i])
		r.Header[k] = append(r.Header[k], strings.TrimSpace(l[i+1:]))
	}
	if st >= 100 && st < 200 {
		return // interim response
	}
	p.cur = r
	r.Close = f[0] == "HTTP/1.0" || strings.EqualFold(r.get("connection"), "close")
	cl, te := r.Header["content-length"], r.Header["transfer-encoding"]
	switch {
	case len(cl) > 1 || len(cl) > 0 && len(te) > 0:
		p.err = "contradictory body lengths"
	case method == "HEAD" || st == 204 || st == 304:
		p.mode, p.left = "fixed", 0
	case len(te) > 0:
		if te[0] != "chunked" {
			p.err = "unknown transfer encoding " + te[0]
		}
		p.mode = "chunk-size"
	case len(cl) == 1:
		n, err := strconv.Atoi(cl[0])
		if err != nil || n < 0 {
			p.err = "bad content-length"
		}
		p.mode, p.left = "fixed", n
	default:
		p.mode = "eof"
		r.Close = true
	}
}

func (r *Response) get(k string) string {
	if l := r.Header[k]; len(l) > 0 {
		return l[0]
	}
	return ""
}

// decode returns the single JSON document of a body.
func decode(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, fmt.Errorf("body is not JSON: %v: %q", err, clip(b))
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one JSON document in the body: %q", clip(b))
	}
	return v, nil
}

// wellFormed checks what every answer of rodb has in common.
func (r *Response) wellFormed(method string) error {
	ct := r.Header["content-type"]
	if r.Status >= 400 && r.Status != 404 && r.Status < 500 {
		return nil // the protocol layer's own answers
	}
	if r.Status != 200 && r.Status != 404 && r.Status != 500 {
		return fmt.Errorf("unexpected status %d", r.Status)
	}
	if len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		return fmt.Errorf("status %d with content type %q", r.Status, ct)
	}
	if method == "HEAD" {
		return nil
	}
	v, err := decode(r.Body)
	if err != nil {
		return fmt.Errorf("status %d: %v", r.Status, err)
	}
	if r.Status != 200 {
		e, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Errorf("status %d without an error object: %q", r.Status, clip(r.Body))
		}
		if s, ok := e["error"].(string); !ok || s == "" {
			return fmt.Errorf("status %d without an error message: %q", r.Status, clip(r.Body))
		}
	}
	return nil
}
