"""Build the MIR extractor (a rustc driver) from the committed source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import extract
print(extract.driver())
