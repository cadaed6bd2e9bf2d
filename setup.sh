#!/bin/bash
# builds the IR dump tool (checks also build it on demand)
cd "$(dirname "$0")" && python3 -c "import sys; sys.path.insert(0, 'sa'); import ir; print(ir.tool_path())"
