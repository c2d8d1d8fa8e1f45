module verif.local

go 1.26

require github.com/lyraproj/dgo v0.0.0

replace github.com/lyraproj/dgo => /repo
