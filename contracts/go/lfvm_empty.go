package lfvm
