// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

// Stand-in for the parts of forge-std the tests and sources of the
// repository use (the submodule is empty here). console is a builtin of the
// translator.
interface Vm {
    function etch(address a, bytes calldata code) external;
    function readFile(string calldata path) external view returns (string memory);
    function startBroadcast() external;
    function startBroadcast(uint256 key) external;
    function stopBroadcast() external;
    function envOr(string calldata name, uint256 dflt) external view returns (uint256);
    function ffi(string[] calldata cmds) external returns (bytes memory);
}

library console {
    function log() internal pure {}
}

contract Test {
    Vm constant vm = Vm(0x7109709ECfa91a80626fF3989D68f67F5b1DD12D);

    function assertTrue(bool a) internal pure { require(a, "assertTrue"); }
    function assertTrue(bool a, string memory m) internal pure { require(a, m); }
    function assertFalse(bool a) internal pure { require(!a, "assertFalse"); }
    function assertFalse(bool a, string memory m) internal pure { require(!a, m); }
    function assertEq(uint256 a, uint256 b) internal pure { require(a == b, "assertEq"); }
    function assertEq(uint256 a, uint256 b, string memory m) internal pure { require(a == b, m); }
    function assertEq(int256 a, int256 b) internal pure { require(a == b, "assertEq"); }
    function assertEq(bool a, bool b) internal pure { require(a == b, "assertEq"); }
    function assertEq(bool a, bool b, string memory m) internal pure { require(a == b, m); }
    function assertEq(address a, address b) internal pure { require(a == b, "assertEq"); }
    function assertEq(bytes32 a, bytes32 b) internal pure { require(a == b, "assertEq"); }
    function assertEq(bytes memory a, bytes memory b) internal pure { require(keccak256(a) == keccak256(b), "assertEq"); }
    function assertEq(string memory a, string memory b) internal pure { require(keccak256(bytes(a)) == keccak256(bytes(b)), "assertEq"); }
}
