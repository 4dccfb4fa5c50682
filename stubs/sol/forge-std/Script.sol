// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

import {Vm} from "./Test.sol";

// Stand-in for forge-std's Script (the submodule is empty here).
contract Script {
    Vm constant vm = Vm(0x7109709ECfa91a80626fF3989D68f67F5b1DD12D);
}
