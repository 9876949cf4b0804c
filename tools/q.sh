#!/bin/bash
# short view of a unit run
cd /verif; bin/gv unit "$@" 2>&1 | grep -v '^ *(define\|^   *note\|path cond\|^        \|^      $'
