package main

import (
	"corpus/forms"
	"fmt"
)

func main() { fmt.Print(forms.Run()) }
