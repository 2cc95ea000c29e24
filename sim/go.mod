module verif.local/sim

go 1.22.0

require github.com/anishathalye/porcupine v1.3.1
