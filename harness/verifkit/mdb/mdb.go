// Package mdb provides message databases for checks and reads all there is
// to read from them.
package mdb

import (
	"crypto/ed25519"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/mutecomm/mute/msgdb"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

// Pass is the passphrase of all databases.
var Pass = []byte("pass phrase")

var tmplDB, tmplKey []byte
var count int64

func scratch() string {
	if d := os.Getenv("VK_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// Template prepares the template with the given initial content.
func Template(init func(db *msgdb.MsgDB) error) error {
	n := filepath.Join(scratch(), "template")
	if err := msgdb.Create(n, Pass, 1); err != nil {
		return err
	}
	db, err := msgdb.Open(n, Pass)
	if err != nil {
		return err
	}
	if init != nil {
		if err := init(db); err != nil {
			return err
		}
	}
	if err := db.Close(); err != nil {
		return err
	}
	if tmplDB, err = ioutil.ReadFile(n + ".db"); err != nil {
		return err
	}
	tmplKey, err = ioutil.ReadFile(n + ".key")
	return err
}

// DB is an open message database.
type DB struct {
	*msgdb.MsgDB
	Name string
}

// Open returns a new copy of the template.
func Open() (*DB, error) { return Snapshot{tmplDB, tmplKey}.Open() }

// Snapshot is the content of a closed database.
type Snapshot struct{ db, key []byte }

// Take closes the database and returns its content.
func (d *DB) Take() (s Snapshot, err error) {
	if err = d.MsgDB.Close(); err != nil {
		return
	}
	if s.db, err = ioutil.ReadFile(d.Name + ".db"); err != nil {
		return
	}
	s.key, err = ioutil.ReadFile(d.Name + ".key")
	os.Remove(d.Name + ".db")
	os.Remove(d.Name + ".key")
	return
}

// Open returns a new database with the content of the snapshot.
func (s Snapshot) Open() (*DB, error) {
	d := &DB{Name: filepath.Join(scratch(), fmt.Sprintf("m%d", atomic.AddInt64(&count, 1)))}
	if err := ioutil.WriteFile(d.Name+".db", s.db, 0600); err != nil {
		return nil, err
	}
	if err := ioutil.WriteFile(d.Name+".key", s.key, 0600); err != nil {
		return nil, err
	}
	var err error
	d.MsgDB, err = msgdb.Open(d.Name, Pass)
	return d, err
}

// Close removes the database.
func (d *DB) Close() {
	d.MsgDB.Close()
	os.Remove(d.Name + ".db")
	os.Remove(d.Name + ".key")
}

// Reopen closes and opens it.
func (d *DB) Reopen() error {
	if err := d.MsgDB.Close(); err != nil {
		return err
	}
	var err error
	d.MsgDB, err = msgdb.Open(d.Name, Pass)
	return err
}

// IDs returns the message numbers of a nym in ascending order, with what is
// listed for them.
func IDs(db *msgdb.MsgDB, nym string) ([]*msgdb.MsgID, error) {
	l, err := db.GetMsgIDs(nym)
	if err != nil {
		return nil, err
	}
	sort.Slice(l, func(i, j int) bool { return l[i].MsgID < l[j].MsgID })
	return l, nil
}

// Messages returns a text of all messages of a nym.
func Messages(db *msgdb.MsgDB, nym string) (string, error) {
	ids, err := IDs(db, nym)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, m := range ids {
		from, to, msg, date, err := db.GetMessage(nym, m.MsgID)
		if err != nil {
			return "", err
		}
		if date != m.Date {
			return "", fmt.Errorf("message %d: dates %d and %d", m.MsgID, date, m.Date)
		}
		fmt.Fprintf(&b, "%s>%s in=%v sent=%v date=%d subj=%q read=%v %q %q %q\n", m.From, m.To, m.Incoming, m.Sent, m.Date, m.Subject, m.Read, from, to, msg)
	}
	return b.String(), nil
}

// Drain empties the queues of the nyms and returns what was in them.
func Drain(db *msgdb.MsgDB, nyms []string) (string, error) {
	var b strings.Builder
	for {
		idx, my, contact, msg, env, err := db.GetInQueue()
		if err != nil {
			return "", fmt.Errorf("GetInQueue: %v", err)
		}
		if idx == 0 {
			break
		}
		fmt.Fprintf(&b, "in %s/%s %q env=%v\n", my, contact, msg, env)
		if err := db.DelInQueue(idx); err != nil {
			return "", err
		}
		if b.Len() > 1<<20 {
			return "", fmt.Errorf("in queue does not end")
		}
	}
	for _, n := range nyms {
		for pass := 0; pass < 2; pass++ {
			for {
				idx, msg, addr, min, max, env, err := db.GetOutQueue(n)
				if err != nil {
					return "", fmt.Errorf("GetOutQueue: %v", err)
				}
				if idx == 0 {
					break
				}
				fmt.Fprintf(&b, "out %s resend=%v %q to %q %d-%d env=%v\n", n, pass == 1, msg, addr, min, max, env)
				if err := db.RemoveOutQueue(idx, 77777); err != nil {
					return "", err
				}
				if b.Len() > 1<<20 {
					return "", fmt.Errorf("out queue does not end")
				}
			}
			if err := db.ClearResendOutQueue(n); err != nil {
				return "", err
			}
		}
		for {
			num, contact, msg, sign, min, max, err := db.GetUndeliveredMessage(n)
			if err != nil {
				return "", fmt.Errorf("GetUndeliveredMessage: %v", err)
			}
			if num == 0 {
				break
			}
			fmt.Fprintf(&b, "undelivered %s to %s %q sign=%v %d-%d\n", n, contact, msg, sign, min, max)
			if err := db.DelMessage(n, num); err != nil {
				return "", err
			}
			if b.Len() > 1<<20 {
				return "", fmt.Errorf("undelivered messages do not end")
			}
		}
	}
	return b.String(), nil
}

// Account returns a text of an account.
func Account(db *msgdb.MsgDB, my, contact string) string {
	pk, server, sec, min, max, last, err := db.GetAccount(my, contact)
	if err != nil {
		return "none"
	}
	t, err := db.GetAccountTime(my, contact)
	if err != nil {
		return "account without time"
	}
	return fmt.Sprintf("%x %s %x %d %d last=%d time=%d", pk[:4], server, sec[:4], min, max, last, t)
}

// Keys makes account keys from a number.
func Keys(n byte) (*[ed25519.PrivateKeySize]byte, *[64]byte) {
	var pk [ed25519.PrivateKeySize]byte
	var s [64]byte
	for i := range pk {
		pk[i], s[i] = n, n+100
	}
	return &pk, &s
}
