module verifharness

go 1.21

require github.com/funny-falcon/go-iproto v0.0.0

replace github.com/funny-falcon/go-iproto => /repo
