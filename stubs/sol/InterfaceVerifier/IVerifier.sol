// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

// Stand-in for the interface the submodule lib/InterfaceVerifier would bring
// (the submodule is empty here): the functions the contracts override.
interface ISigVerifier {
    function setKey(bytes memory pubkey) external returns (bytes memory);
    function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4);
}
