package main
import ("fmt"; "fa")
func main(){ fmt.Print(fa.Test()) }
