module verif/driver

go 1.21

require github.com/absolutelightning/go-immutable-adaptive-radix v0.0.0

replace github.com/absolutelightning/go-immutable-adaptive-radix => /repo
