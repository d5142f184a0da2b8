#!/bin/bash
# builds the extractor and the witness searcher
bash /verif/extract/build.sh && bash /verif/harness/build.sh
