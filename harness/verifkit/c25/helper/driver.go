package main

import (
	"database/sql"
	"database/sql/driver"
	"strings"
	_ "unsafe" // for linkname

	sqlcipher "github.com/mutecomm/go-sqlcipher/v4"
)

//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

// announceCommits has every commit to a database announced.
func announceCommits() {
	if _, err := sql.Open("sqlite3", ""); err != nil {
		panic(err)
	}
	drivers["sqlite3"] = drv{drivers["sqlite3"]}
}

type drv struct{ driver.Driver }

func (d drv) Open(name string) (driver.Conn, error) {
	c, err := d.Driver.Open(name)
	if err != nil {
		return nil, err
	}
	return &conn{SQLiteConn: c.(*sqlcipher.SQLiteConn)}, nil
}

type conn struct {
	*sqlcipher.SQLiteConn
	inTx bool
}

// may tells if the statement may be executed.
func (c *conn) may(query string) error {
	q := strings.ToUpper(strings.TrimSpace(query))
	for _, w := range []string{"INSERT", "UPDATE", "DELETE", "REPLACE", "CREATE", "DROP", "ALTER"} {
		if strings.HasPrefix(q, w) && !c.inTx && !event("commit") {
			return errInjected
		}
	}
	return nil
}

func (c *conn) Exec(query string, args []driver.Value) (driver.Result, error) {
	if err := c.may(query); err != nil {
		return nil, err
	}
	return c.SQLiteConn.Exec(query, args)
}

func (c *conn) Prepare(query string) (driver.Stmt, error) {
	s, err := c.SQLiteConn.Prepare(query)
	if err != nil {
		return nil, err
	}
	return &stmt{s.(*sqlcipher.SQLiteStmt), c, query}, nil
}

func (c *conn) Begin() (driver.Tx, error) {
	t, err := c.SQLiteConn.Begin()
	if err != nil {
		return nil, err
	}
	c.inTx = true
	return &tx{t, c}, nil
}

type stmt struct {
	*sqlcipher.SQLiteStmt
	c     *conn
	query string
}

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	if err := s.c.may(s.query); err != nil {
		return nil, err
	}
	return s.SQLiteStmt.Exec(args)
}

type tx struct {
	driver.Tx
	c *conn
}

func (t *tx) Commit() error {
	t.c.inTx = false
	if !event("commit") {
		t.Tx.Rollback()
		return errInjected
	}
	return t.Tx.Commit()
}

func (t *tx) Rollback() error {
	t.c.inTx = false
	return t.Tx.Rollback()
}
