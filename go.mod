module verif

go 1.26

require github.com/dropmorepackets/haproxy-go v0.0.0

require github.com/google/go-cmp v0.6.0 // indirect

replace github.com/dropmorepackets/haproxy-go => /repo
