// SPDX-License-Identifier: MIT
pragma solidity ^0.8.25;

// What the deployment script could find in place of a working ZKNOX_epervier.
contract RecoverOther {
    function recover(bytes memory, bytes memory, uint256[] memory, uint256[] memory, uint256) external pure returns (address) {
        return address(0x1234567890123456789012345678901234567890);
    }
}

contract RecoverZero {
    function recover(bytes memory, bytes memory, uint256[] memory, uint256[] memory, uint256) external pure returns (address) {
        return address(0);
    }
}

contract RecoverNear {
    function recover(bytes memory, bytes memory, uint256[] memory, uint256[] memory, uint256) external pure returns (address) {
        return address(uint160(728199263750570446964354330903202655824594974439) ^ 1);
    }
}

contract RecoverReverts {
    function recover(bytes memory, bytes memory, uint256[] memory, uint256[] memory, uint256) external pure returns (address) {
        revert("no");
    }
}
