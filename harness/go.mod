module rvmon

go 1.21

require github.com/bluekeyes/go-gitdiff v0.0.0

replace github.com/bluekeyes/go-gitdiff => /repo
