// Package quickdb switches off the locking and wiping of memory of SQLCipher,
// a setting of the whole process, which otherwise takes most of the time of
// harnesses that open many databases.
package quickdb

import (
	"database/sql"

	_ "github.com/mutecomm/go-sqlcipher/v4" // the driver
)

func init() {
	db, err := sql.Open("sqlite3", ":memory:")
	if err != nil {
		panic(err)
	}
	defer db.Close()
	if _, err := db.Exec("PRAGMA cipher_memory_security = OFF;"); err != nil {
		panic(err)
	}
}
