// Package simsql replaces sql.Open so that the handles of a killed process can be closed.
package simsql

import (
	"database/sql"
	"database/sql/driver"

	"rodbsim/simrt"
	_ "rodbsim/simvfs"
)

func track(db *sql.DB) {
	inc := simrt.CurrentInc()
	inc.DBs = append(inc.DBs, db)
	inc.OnKill(func() { db.Close() })
}

func Open(name, dsn string) (*sql.DB, error) {
	if f := simrt.FindFault(simrt.CurrentInc(), "sqlopen", "sqlite"); f != nil {
		return nil, simrt.ErrnoOf(f.Kind)
	}
	db, err := sql.Open(name, dsn)
	if err == nil {
		track(db)
	}
	return db, err
}

func OpenDB(c driver.Connector) *sql.DB {
	db := sql.OpenDB(c)
	track(db)
	return db
}

// TrackTx remembers a transaction, so that it ends with its process.
func TrackTx(tx *sql.Tx, err error) (*sql.Tx, error) {
	if err == nil {
		simrt.CurrentInc().OnKill(func() { tx.Rollback() })
	}
	return tx, err
}
