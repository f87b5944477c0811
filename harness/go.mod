module verif/harness

go 1.13

require (
	github.com/akhenakh/oureadb v0.0.0
	github.com/boltdb/bolt v1.3.1
	github.com/dgraph-io/badger v1.6.0
	github.com/golang/geo v0.0.0-20200730024412-e86565bf3f35
	github.com/golang/protobuf v1.3.2
	github.com/gorilla/mux v1.7.3
	github.com/pkg/errors v0.9.1
	github.com/steveyen/gtreap v0.0.0-20150807155958-0abe01ef9be2
	github.com/stretchr/testify v1.6.1
	github.com/syndtr/goleveldb v1.0.0
	github.com/twpayne/go-geom v1.3.6
)

replace github.com/akhenakh/oureadb => /repo
