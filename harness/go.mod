module verifharness

go 1.23

require (
	github.com/mariotoffia/goannoy v0.0.0
	golang.org/x/exp v0.0.0-20230321023759-10a507213a29
	pgregory.net/rapid v1.3.0
)

require (
	github.com/jfcg/sixb v1.3.8 // indirect
	github.com/jfcg/sorty/v2 v2.1.0 // indirect
)

replace github.com/mariotoffia/goannoy => /repo
