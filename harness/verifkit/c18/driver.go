package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"sync"

	sqlcipher "github.com/mutecomm/go-sqlcipher/v4"
)

// The driver "crashing" is SQLite, but after a given number of statements
// that write it executes none any more, as if the process had ended.

var errCrashed = errors.New("crashed")

var fuses = struct {
	sync.Mutex
	left map[string]int
	blew map[string]bool
}{left: make(map[string]int), blew: make(map[string]bool)}

func limit(file string, n int) {
	fuses.Lock()
	fuses.left[file] = n
	fuses.Unlock()
}

func exhausted(file string) bool {
	fuses.Lock()
	defer fuses.Unlock()
	delete(fuses.left, file)
	b := fuses.blew[file]
	delete(fuses.blew, file)
	return b
}

func burn(file string) error {
	fuses.Lock()
	defer fuses.Unlock()
	n, ok := fuses.left[file]
	if !ok {
		return nil
	}
	if n == 0 {
		fuses.blew[file] = true
		return errCrashed
	}
	fuses.left[file] = n - 1
	return nil
}

type crashDriver struct{ d driver.Driver }

func (c crashDriver) Open(name string) (driver.Conn, error) {
	k, err := c.d.Open(name)
	if err != nil {
		return nil, err
	}
	return &crashConn{k, name}, nil
}

type crashConn struct {
	driver.Conn
	file string
}

func (c *crashConn) Prepare(q string) (driver.Stmt, error) {
	s, err := c.Conn.Prepare(q)
	if err != nil {
		return nil, err
	}
	return &crashStmt{s, c.file}, nil
}

func (c *crashConn) Begin() (driver.Tx, error) {
	t, err := c.Conn.Begin()
	if err != nil {
		return nil, err
	}
	return &crashTx{t, c.file}, nil
}

func (c *crashConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	return c.Begin()
}

type crashTx struct {
	driver.Tx
	file string
}

func (t *crashTx) Commit() error {
	if err := burn(t.file); err != nil {
		t.Tx.Rollback()
		return err
	}
	return t.Tx.Commit()
}

type crashStmt struct {
	driver.Stmt
	file string
}

func (s *crashStmt) Exec(args []driver.Value) (driver.Result, error) {
	if err := burn(s.file); err != nil {
		return nil, err
	}
	return s.Stmt.Exec(args)
}

func init() { sql.Register("crashing", crashDriver{&sqlcipher.SQLiteDriver{}}) }
