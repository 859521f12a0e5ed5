module zkcverif

go 1.23.0

require (
	github.com/companyzero/zkc v0.0.0
	pgregory.net/rapid v1.3.0
	github.com/companyzero/sntrup4591761 v0.0.0-20200131011700-2b0d299dbd22
	github.com/companyzero/ttk v0.0.0-20200507204321-45a9b9385797
	github.com/davecgh/go-spew v1.1.1
	github.com/davecgh/go-xdr v0.0.0-20161123171359-e6a2ba005892
	github.com/marcopeereboom/goutil v0.0.0-20151009174051-30a0823e951a
	github.com/mitchellh/go-homedir v1.1.0
	github.com/nsf/termbox-go v0.0.0-20200418040025-38ba6e5628f1
	github.com/pmezard/go-difflib v1.0.0
	github.com/vaughan0/go-ini v0.0.0-20130923145212-a98ad7ee00ec
	golang.org/x/crypto v0.0.0-20210220033148-5ea612d1eb83
	golang.org/x/sync v0.0.0-20200317015054-43a5402ce75a
)

replace github.com/companyzero/zkc => /repo
