#!/bin/bash
/verif/build/vx/release/vx /repo /verif/contracts /verif/build/gen "$@"
