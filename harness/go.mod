module verifharness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/warthog618/sms v0.0.0
)

replace github.com/warthog618/sms => /repo
