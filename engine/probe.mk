# Reads the project's own flags for a configuration out of its Makefile.
include Makefile
vp-probe:
	@echo 'CFLAGS=$(CFLAGS)'
	@echo 'CXXFLAGS=$(CXXFLAGS)'
	@echo 'DEBUG=$(DEBUG_LOG_FLAGS)'
	@echo 'UNIT=$(UNIT_TESTING)'
	@echo 'CSRCS=$(wildcard $(C_SRCS))'
	@echo 'CXXSRCS=$(wildcard $(CXX_SRCS))'
.PHONY: vp-probe
