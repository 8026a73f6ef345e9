module m
