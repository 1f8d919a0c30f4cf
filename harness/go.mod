module verifharness

go 1.23

require (
	github.com/kljensen/snowball v0.10.0
	github.com/mailru/easyjson v0.9.0
	github.com/sonirico/vago v0.6.1
	github.com/sonirico/visigoth v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/josharian/intern v1.0.0 // indirect

replace github.com/sonirico/visigoth => /repo
