"""C01: the UTF-8 codec of Type/Character.hpp"""
from irv.lib import *
from . import utf8
HARNESS = ['C01.cpp']
SPECS = utf8.ALL
CONTRACTS = []
DRIVER = 'C01.cpp'
BOUND = 'every code point at three positions; every byte string of length <= 4 over 21 boundary bytes; random strings'
ASSUMPTIONS = ['texts are shorter than 2^31 bytes (the offset is an int)']
NOTE = '''All ten UTF-8 functions of Character are proved against their contracts for every text below 2^31 bytes and every offset (bit-precise machine
arithmetic); assumed: ICU's utf8_prevCharSafeBody/utf8_back1SafeBody return the start of a well-formed sequence that ends at the offset, std::string::operator[].'''
