package guardkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"sync"
)

// Call is a request of a client.
type Call struct {
	Path   string
	Method string
	Params map[string]interface{}
	ID     string
}

// Reply is what a server does with a request: deliver a result, an error, the
// raw bytes, or nothing.
type Reply struct {
	Result interface{} // marshalled, or json.RawMessage
	Err    string
	Raw    []byte
	Drop   bool
}

// Server is a JSON-RPC server.
type Server struct {
	URL    string
	mu     sync.Mutex
	answer func(c Call) Reply
	calls  []Call
	srv    *httptest.Server
}

// Serve starts a server.
func Serve(answer func(c Call) Reply) *Server {
	s := &Server{answer: answer}
	s.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := ioutil.ReadAll(q.Body)
		var req struct {
			Method string
			Params map[string]interface{}
			Id     json.RawMessage
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&req) != nil {
			http.Error(w, "bad request", 400)
			return
		}
		c := Call{q.URL.Path, req.Method, req.Params, string(req.Id)}
		s.mu.Lock()
		s.calls = append(s.calls, c)
		f := s.answer
		s.mu.Unlock()
		a := f(c)
		w.Header().Set("Content-Type", "application/json")
		switch {
		case a.Drop:
			panic(http.ErrAbortHandler)
		case a.Raw != nil:
			w.Write(a.Raw)
		case a.Err != "":
			e, _ := json.Marshal(a.Err)
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":-32000,"message":%s},"id":%s}`, e, req.Id)
		default:
			res, err := json.Marshal(a.Result)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":%s}`, res, req.Id)
		}
	}))
	s.srv.Config.SetKeepAlivesEnabled(false)
	s.srv.Start()
	s.URL = s.srv.URL
	return s
}

// Set changes what the server answers and forgets the calls it has seen.
func (s *Server) Set(answer func(c Call) Reply) {
	s.mu.Lock()
	s.answer, s.calls = answer, nil
	s.mu.Unlock()
}

// Calls are the calls seen.
func (s *Server) Calls() []Call {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Call{}, s.calls...)
}

// Close stops the server.
func (s *Server) Close() { s.srv.Close() }
